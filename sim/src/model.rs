//! Reference model of a document: contents, edits, conversion, comparison.
use crate::schema::*;
use crate::ser_struct;
use crate::sys::*;
use dochy_core::intf::*;
use dochy_core::structs::{LinkedMap, MutItem, Qv, RootObject, RootSabValue};
use std::collections::BTreeMap;
use std::fmt::Write;

#[derive(Clone, Debug, PartialEq, Default)]
pub struct Doc {
    pub set: BTreeMap<String, Val>,
    pub lists: BTreeMap<String, Option<List>>,
}
ser_struct!(Doc { set, lists });

impl Doc {
    pub fn init(s: &Schema) -> Doc {
        let mut d = Doc::default();
        for (n, m, _) in &s.members {
            if let RootMember::MList(_, _, l) = m {
                d.lists.insert(n.clone(), Some(l.clone()));
            }
        }
        d
    }
}

// ---------------------------------------------------------------- showing
pub fn show(v: &Val) -> String {
    fn arr<T: std::fmt::Debug>(v: &[T]) -> String {
        if v.len() <= 6 {
            format!("{:?}", v)
        } else {
            let b = format!("{:?}", v);
            format!("[len {} hash {:x}]", v.len(), fnv(1, b.as_bytes()))
        }
    }
    match v {
        Val::Null => "null".into(),
        Val::Undef => "undefined".into(),
        Val::Bool(b) => b.to_string(),
        Val::Int(i) => i.to_string(),
        Val::Float(f) => format!("f{:016x}", f),
        Val::Str(s) => {
            if s.len() <= 60 {
                format!("{:?}", s)
            } else {
                format!("str(len {} hash {:x})", s.len(), fnv(1, s.as_bytes()))
            }
        }
        Val::Ints(v) => format!("i{}", arr(v)),
        Val::Floats(v) => format!("F{}", arr(v)),
        Val::Bin(v) => format!("b{}", arr(v)),
    }
}
fn line(o: &mut String, path: &str, name: &str, v: &str) {
    let _ = writeln!(o, "{}{}={}", path, name, v);
}

pub fn dump_model(s: &Schema, d: &Doc) -> String {
    let mut o = String::new();
    for (n, m, _) in &s.members {
        match m {
            RootMember::Param(p) => line(&mut o, "", n, &show(d.set.get(n).unwrap_or(&p.def))),
            RootMember::MList(def, _, _) => match d.lists.get(n) {
                Some(Some(l)) => dm_list(&mut o, n, def, l, true),
                Some(None) => line(&mut o, "", n, "undefined"),
                None => line(&mut o, "", n, "<none>"),
            },
            RootMember::CList(def, l) => dm_list(&mut o, n, def, l, false),
            RootMember::Table(def, rows) => {
                line(&mut o, n, "#", &rows.len().to_string());
                line(&mut o, n, "#old", &format!("{:?}", s.old_rows.iter().filter(|x| &x.0 == n).map(|x| x.1.clone()).collect::<Vec<_>>()));
                for (id, it) in rows {
                    dm_item(&mut o, &format!("{}[{}].", n, id), def, it);
                }
            }
        }
    }
    o
}
fn dm_list(o: &mut String, path: &str, def: &ListDef, l: &List, ids: bool) {
    if ids {
        line(o, path, "#", &format!("{:?}", l.items.iter().map(|x| x.0).collect::<Vec<_>>()));
    } else {
        line(o, path, "#", &l.items.len().to_string());
    }
    for (i, (id, it)) in l.items.iter().enumerate() {
        let k = if ids { *id } else { i as u64 };
        dm_item(o, &format!("{}[{}].", path, k), def, it);
    }
}
fn dm_item(o: &mut String, path: &str, def: &ListDef, it: &Item) {
    for (n, m) in &def.members {
        match m {
            Member::Param(p) => line(o, path, n, &show(it.set.get(n).unwrap_or(&p.def))),
            Member::Mil(d, _) => match it.lists.get(n) {
                Some(Some(l)) => dm_list(o, &format!("{}{}", path, n), d, l, true),
                Some(None) => line(o, path, n, "undefined"),
                None => line(o, &format!("{}{}", path, n), "#", "[]"),
            },
            Member::Cil(d) => match it.lists.get(n) {
                Some(Some(l)) => dm_list(o, &format!("{}{}", path, n), d, l, false),
                _ => line(o, &format!("{}{}", path, n), "#", "0"),
            },
        }
    }
    if def.is_enum {
        let e = it.refs.iter().find(|x| matches!(x.1, Val::Str(_))).map(|(a, b)| format!("{}/{}", a, show(b)));
        line(o, path, "enum", &e.unwrap_or("<none>".into()));
    } else {
        for r in &def.refs {
            line(o, path, &format!("ref {}", r.table), &show(it.refs.get(&r.table).unwrap_or(&r.def)));
        }
    }
}

fn q<T>(v: Option<Qv<T>>, f: impl FnOnce(T) -> Val) -> Option<Val> {
    v.map(|x| match x {
        Qv::Val(x) => f(x),
        Qv::Null => Val::Null,
        Qv::Undefined => Val::Undef,
    })
}
fn fbits(v: &[f64]) -> Vec<u64> {
    v.iter().map(|x| x.to_bits()).collect()
}
macro_rules! getters { ($f:ident, $g:ident, $p:ty, $m:ident) => {
    /// the default, and the value read in place
    fn $g(p: $p, n: &str, t: Ty) -> (Option<Val>, Option<Val>) {
        match t {
            Ty::Bool => (q($m::get_bool_def(p, n), Val::Bool), $f(p, n, t)),
            Ty::Int => (q($m::get_int_def(p, n), Val::Int), $f(p, n, t)),
            Ty::Float => (q($m::get_float_def(p, n), |x| Val::Float(x.to_bits())), $f(p, n, t)),
            Ty::Str => (q($m::get_str_def(p, n), |x| Val::Str(x.clone())), q($m::get_immutable_str(p, n), |x| Val::Str(x.clone()))),
            Ty::IntArr => (q($m::get_int_array_def(p, n), |x| Val::Ints(x.clone())), q($m::get_immutable_int_array(p, n), |x| Val::Ints(x.clone()))),
            Ty::FloatArr => (q($m::get_float_array_def(p, n), |x| Val::Floats(fbits(x))), q($m::get_immutable_float_array(p, n), |x| Val::Floats(fbits(x)))),
            Ty::Bin => (q($m::get_binary_def(p, n), |x| Val::Bin(x.clone())), q($m::get_immutable_binary(p, n), |x| Val::Bin(x.clone()))),
        }
    }
    pub fn $f(p: $p, n: &str, t: Ty) -> Option<Val> {
        match t {
            Ty::Bool => q($m::get_bool(p, n), Val::Bool),
            Ty::Int => q($m::get_int(p, n), Val::Int),
            Ty::Float => q($m::get_float(p, n), |x| Val::Float(x.to_bits())),
            Ty::Str => q($m::get_str(p, n), Val::Str),
            Ty::IntArr => q($m::get_int_array(p, n), Val::Ints),
            Ty::FloatArr => q($m::get_float_array(p, n), |x| Val::Floats(fbits(&x))),
            Ty::Bin => q($m::get_binary(p, n), Val::Bin),
        }
    }
} }
getters!(get_root, more_root, RootObjectPtr, root);
getters!(get_mitem, more_mitem, MItemPtr, mitem);
getters!(get_citem, more_citem, CItemPtr, citem);
use dochy_core::intf::citem::CItemPtr;
use dochy_core::intf::mitem::MItemPtr;

/// every way to read a variable agrees
fn readings(o: &mut String, path: &str, n: &str, p: &Param, v: Option<Val>, (def, place): (Option<Val>, Option<Val>)) {
    if def.as_ref() != Some(&p.def) {
        line(o, path, &format!("{}#default", n), &shown(def));
    }
    if place != v {
        line(o, path, &format!("{}#in place", n), &shown(place));
    }
    line(o, path, n, &shown(v));
}
fn shown(v: Option<Val>) -> String {
    v.map(|x| show(&x)).unwrap_or("<none>".into())
}
fn rp(r: &RootObject) -> RootObjectPtr {
    RootObjectPtr::new(r as *const RootObject as *mut RootObject)
}
pub fn dump_real(s: &Schema, r: &RootObject) -> String {
    let mut o = String::new();
    let p = rp(r);
    for (n, m, _) in &s.members {
        match m {
            RootMember::Param(pa) => readings(&mut o, "", n, pa, get_root(p, n, pa.ty), more_root(p, n, pa.ty)),
            RootMember::MList(def, _, _) => match root::get_mlist_const::<MItemPtr>(p, n) {
                None => line(&mut o, "", n, "<none>"),
                Some(None) => line(&mut o, "", n, "undefined"),
                Some(Some(l)) => {
                    dr_mlist(&mut o, n, def, l);
                    if let Some(RootSabValue::Mut(Some(l))) = r.sabun().get(n) {
                        dr_map(&mut o, n, l.list());
                    }
                }
            },
            RootMember::CList(def, _) => match root::get_clist::<CItemPtr>(p, n) {
                None => line(&mut o, "", n, "<none>"),
                Some(l) => dr_clist(&mut o, n, def, l),
            },
            RootMember::Table(def, rows) => match root::get_table(p.def(), n) {
                None => line(&mut o, "", n, "<none>"),
                Some(t) => {
                    let kvs = table::get_kvs(t);
                    line(&mut o, n, "#", &kvs.items().len().to_string());
                    let mut old: Vec<String> = kvs.items().iter().filter(|x| x.is_old()).map(|x| x.id().to_string()).collect();
                    old.sort();
                    line(&mut o, n, "#old", &format!("{:?}", old));
                    for (id, _) in rows {
                        match table::get_value(t, id) {
                            None => line(&mut o, n, id, "<none>"),
                            Some(c) => dr_citem(&mut o, &format!("{}[{}].", n, id), def, c),
                        }
                    }
                }
            },
        }
    }
    o
}
use dochy_core::intf::clist::CListPtr;
use dochy_core::intf::mlist_ptr::MListPtr;
fn dr_clist(o: &mut String, path: &str, def: &ListDef, l: CListPtr<CItemPtr>) {
    line(o, path, "#", &l.len().to_string());
    for (i, c) in l.iter().enumerate() {
        dr_citem(o, &format!("{}[{}].", path, i), def, c);
    }
}
fn dr_citem(o: &mut String, path: &str, def: &ListDef, c: CItemPtr) {
    for (n, m) in &def.members {
        match m {
            Member::Param(p) => readings(o, path, n, p, get_citem(c, n, p.ty), more_citem(c, n, p.ty)),
            Member::Cil(d) => match citem::get_cil::<CItemPtr>(c, n) {
                Some(l) => dr_clist(o, &format!("{}{}", path, n), d, l),
                None => line(o, &format!("{}{}", path, n), "#", "0"),
            },
            Member::Mil(..) => {}
        }
    }
    if def.is_enum {
        line(o, path, "enum", &citem::get_enum(c).map(|(a, b)| format!("{}/{:?}", a, b)).unwrap_or("<none>".into()));
    } else {
        for r in &def.refs {
            let id = q(citem::get_ref_id(c, &r.table), |x| Val::Str(x.clone()));
            let to = citem::get_ref(c, &r.table);
            if matches!(to, Some(Qv::Val(_))) != matches!(id, Some(Val::Str(_))) || to.is_none() {
                line(o, path, &format!("ref {} to", r.table), "<none>");
            }
            line(o, path, &format!("ref {}", r.table), &shown(id));
        }
    }
}
fn dr_mlist(o: &mut String, path: &str, def: &ListDef, l: MListPtr<MItemPtr>) {
    let mut ids = vec![];
    let mut items = vec![];
    let mut it = l.iter_const();
    while let Some((id, p)) = it.next_const() {
        ids.push(id);
        items.push(p);
        if ids.len() > 100_000 {
            break;
        }
    }
    line(o, path, "#", &format!("{:?}", ids));
    // the list must be consistent when walked backwards and by ID
    let mut back = vec![];
    let mut it = l.iter_from_last_const();
    while let Some((id, _)) = it.prev_const() {
        back.push(id);
        if back.len() > 100_000 {
            break;
        }
    }
    back.reverse();
    if back != ids {
        line(o, path, "#backwards", &format!("{:?}", back));
    }
    if l.len() != ids.len() || l.is_empty() != ids.is_empty() || l.first_const().map(|x| x.item()) != items.first().map(|x| x.item()) || l.last_const().map(|x| x.item()) != items.last().map(|x| x.item()) || l.first_id() != ids.first().copied() || l.last_id() != ids.last().copied() {
        line(o, path, "#ends", &format!("len {} first {:?} last {:?}", l.len(), l.first_id(), l.last_id()));
    }
    for (i, (id, p)) in ids.iter().zip(items).enumerate() {
        if l.get_item_const(*id).map(|x| x.item()) != Some(p.item()) || !l.contains_key(*id) || *id >= l.next_id() {
            line(o, path, "#lookup", &id.to_string());
        }
        let from = l.iter_from_id_const(*id).map(|mut it| (it.is_available(), it.is_first(), it.is_last(), it.current_const().map(|x| x.0)));
        if from != Some((true, i == 0, i + 1 == ids.len(), Some(*id))) {
            line(o, path, "#from", &format!("{} {:?}", id, from));
        }
        dr_mitem(o, &format!("{}[{}].", path, id), def, p);
    }
}
/// the iterators over the stored list know where they are
fn dr_map(o: &mut String, path: &str, l: &LinkedMap<MutItem>) {
    let mut it = l.iter();
    let mut n = 0;
    while it.is_available() && n <= l.len() {
        n += 1;
        if it.is_first() != (n == 1) || it.is_last() != (n == l.len()) {
            line(o, path, "#iter", &format!("at {} of {}: first {} last {}", n, l.len(), it.is_first(), it.is_last()));
        }
        it.next();
    }
    if n != l.len() {
        line(o, path, "#iter", &format!("{} of {} items", n, l.len()));
    }
}
fn dr_mitem(o: &mut String, path: &str, def: &ListDef, c: MItemPtr) {
    for (n, m) in &def.members {
        match m {
            Member::Param(p) => readings(o, path, n, p, get_mitem(c, n, p.ty), more_mitem(c, n, p.ty)),
            Member::Mil(d, _) => match mitem::get_mil_const::<MItemPtr>(c, n) {
                Some(Some(l)) => dr_mlist(o, &format!("{}{}", path, n), d, l),
                Some(None) => line(o, path, n, "undefined"),
                None => line(o, path, n, "<none>"),
            },
            Member::Cil(_) => {}
        }
    }
    if def.is_enum {
        line(o, path, "enum", &mitem::get_enum(c).map(|(a, b)| format!("{}/{:?}", a, b)).unwrap_or("<none>".into()));
    } else {
        for r in &def.refs {
            let id = q(mitem::get_ref_id(c, &r.table), |x| Val::Str(x.clone()));
            let to = mitem::get_ref(c, &r.table);
            if matches!(to, Some(Qv::Val(_))) != matches!(id, Some(Val::Str(_))) || to.is_none() {
                line(o, path, &format!("ref {} to", r.table), "<none>");
            }
            line(o, path, &format!("ref {}", r.table), &shown(id));
        }
    }
}

/// Err(first difference)
pub fn compare(s: &Schema, d: &Doc, r: &RootObject) -> Result<(), String> {
    let a = dump_model(s, d);
    let b = dump_real(s, r);
    if a == b {
        return Ok(());
    }
    let (mut x, mut y) = (a.lines(), b.lines());
    loop {
        match (x.next(), y.next()) {
            (Some(p), Some(q)) if p == q => continue,
            (None, None) => return Ok(()),
            (p, q) => return Err(format!("expected {} but is {}", clip(p.unwrap_or("(end)")), clip(q.unwrap_or("(end)")))),
        }
    }
}
pub fn clip(s: &str) -> String {
    if s.chars().count() > 300 {
        s.chars().take(300).collect::<String>() + "..."
    } else {
        s.to_string()
    }
}

// ---------------------------------------------------------------- edits
#[derive(Clone, Copy)]
enum P {
    R(RootObjectPtr),
    I(MItemPtr),
}
macro_rules! both { ($p:expr, $f:ident ( $($a:expr),* )) => { match $p { P::R(p) => root::$f(p, $($a),*), P::I(p) => mitem::$f(p, $($a),*) } } }
fn to_q<T>(v: &Val, f: impl FnOnce(&Val) -> T) -> Qv<T> {
    match v {
        Val::Null => Qv::Null,
        Val::Undef => Qv::Undefined,
        x => Qv::Val(f(x)),
    }
}
fn set_p(p: P, n: &str, t: Ty, v: &Val) -> bool {
    match t {
        Ty::Bool => both!(p, set_bool(n, to_q(v, |v| if let Val::Bool(b) = v { *b } else { unreachable!() }))),
        Ty::Int => both!(p, set_int(n, to_q(v, |v| if let Val::Int(b) = v { *b } else { unreachable!() }))),
        Ty::Float => both!(p, set_float(n, to_q(v, |v| if let Val::Float(b) = v { f64::from_bits(*b) } else { unreachable!() }))),
        Ty::Str => both!(p, set_str(n, to_q(v, |v| if let Val::Str(b) = v { b.clone() } else { unreachable!() }))),
        Ty::IntArr => both!(p, set_int_array(n, to_q(v, |v| if let Val::Ints(b) = v { b.clone() } else { unreachable!() }))),
        Ty::FloatArr => both!(p, set_float_array(n, to_q(v, |v| if let Val::Floats(b) = v { b.iter().map(|x| f64::from_bits(*x)).collect() } else { unreachable!() }))),
        Ty::Bin => both!(p, set_binary(n, to_q(v, |v| if let Val::Bin(b) = v { b.clone() } else { unreachable!() }))),
    }
}
fn zero(t: Ty, n: usize) -> Val {
    match t {
        Ty::Bool => Val::Bool(false),
        Ty::Int => Val::Int(0),
        Ty::Float => Val::Float(0),
        Ty::Str => Val::Str(String::new()),
        Ty::IntArr => Val::Ints(vec![0; n]),
        Ty::FloatArr => Val::Floats(vec![0; n]),
        Ty::Bin => Val::Bin(vec![0; n]),
    }
}
type R = Result<(), String>;
fn ck(ok: bool, f: impl FnOnce() -> String) -> R {
    if ok {
        Ok(())
    } else {
        Err(f())
    }
}

pub struct Editor<'a> {
    pub s: &'a Schema,
    pub r: Rng,
    pub big: bool,
    /// only lists (IDs) are edited
    pub lists: bool,
    /// lists are walked with cursors too
    pub walks: bool,
    pub log: Vec<String>,
}
impl<'a> Editor<'a> {
    pub fn new(s: &'a Schema, seed: u64, big: bool, lists: bool, walks: bool) -> Editor<'a> {
        Editor { s, r: Rng::new(seed), big, lists, walks, log: vec![] }
    }
    pub fn run(&mut self, root_obj: &mut RootObject, d: &mut Doc, n: usize) -> R {
        let p = RootObjectPtr::new(root_obj);
        let s = self.s;
        let params: Vec<(&String, &Param)> = s.members.iter().filter_map(|m| if let RootMember::Param(p) = &m.1 { Some((&m.0, p)) } else { None }).collect();
        let lists: Vec<(&String, &ListDef)> = s.members.iter().filter_map(|m| if let RootMember::MList(d, _, _) = &m.1 { Some((&m.0, d)) } else { None }).collect();
        for _ in 0..n {
            let pick_param = if lists.is_empty() { true } else if params.is_empty() || self.lists { false } else { self.r.chance(2, 5) };
            if pick_param {
                if let Some((n, pd)) = pick_opt(&mut self.r, &params).copied() {
                    self.param(P::R(p), n, n, pd, &mut d.set)?;
                }
            } else {
                let (n, def) = *self.r.pick(&lists);
                let ptr = root::get_mlist_mut::<MItemPtr>(p, n).ok_or_else(|| format!("get_mlist_mut({}) gave nothing", n))?;
                let l = d.lists.get_mut(n).ok_or("model list")?;
                let l = l.get_or_insert_with(List::default);
                self.list(ptr, n, def, l, 0)?;
            }
        }
        Ok(())
    }
    fn note(&mut self, f: impl FnOnce() -> String) {
        if self.log.len() < 200 {
            self.log.push(clip(&f()));
        }
    }
    fn param(&mut self, p: P, path: &str, n: &str, pd: &Param, set: &mut BTreeMap<String, Val>) -> R {
        let mutable = matches!(pd.ty, Ty::Str | Ty::IntArr | Ty::FloatArr | Ty::Bin);
        match self.r.below(20) {
            0 => {
                // not allowed: must be refused without effect
                let v = if !pd.nullable { Val::Null } else if !pd.undef { Val::Undef } else { return Ok(()) };
                self.note(|| format!("set {} {} (must be refused)", path, show(&v)));
                ck(!set_p(p, n, pd.ty, &v), || format!("setting {} to {} was not refused", path, show(&v)))
            }
            1 => {
                let other = *self.r.pick(&TYS);
                if other == pd.ty {
                    return Ok(());
                }
                let v = zero(other, 1);
                self.note(|| format!("set {} as {:?} (must be refused)", path, other));
                ck(!set_p(p, n, other, &v), || format!("setting {} as {:?} was not refused", path, other))
            }
            2 => {
                let k = self.r.below(9);
                self.note(|| format!("set_initial_value {} {}", path, k));
                ck(both!(p, set_initial_value(n, k)), || format!("set_initial_value({}) failed", path))?;
                set.insert(n.to_string(), zero(pd.ty, k));
                Ok(())
            }
            3..=7 if mutable => {
                let mut v = set.get(n).cloned().unwrap_or(pd.def.clone());
                self.note(|| format!("modify {} in place", path));
                self.inplace(p, path, n, pd.ty, &mut v)?;
                set.insert(n.to_string(), v);
                Ok(())
            }
            _ => {
                let v = if pd.nullable && self.r.chance(1, 5) {
                    Val::Null
                } else if pd.undef && self.r.chance(1, 5) {
                    Val::Undef
                } else if self.r.chance(1, 10) && !matches!(pd.def, Val::Null | Val::Undef) {
                    pd.def.clone()
                } else {
                    edit_val(&mut self.r, pd.ty, self.big)
                };
                self.note(|| format!("set {} {}", path, show(&v)));
                ck(set_p(p, n, pd.ty, &v), || format!("setting {} to {} was refused", path, show(&v)))?;
                set.insert(n.to_string(), v);
                Ok(())
            }
        }
    }
    fn inplace(&mut self, p: P, path: &str, n: &str, ty: Ty, v: &mut Val) -> R {
        let k = self.r.below(4);
        let x = self.r.below(256) as u8;
        let bad = |g: &str| Err(format!("in-place access to {} gave {}", path, g));
        macro_rules! go { ($get:ident, $var:ident, $one:expr, $conv:expr) => {{
            let g = both!(p, $get(n));
            match (g, &mut *v) {
                (Some(Qv::Null), Val::Null) | (Some(Qv::Undefined), Val::Undef) => Ok(()),
                (Some(Qv::Val(real)), Val::$var(m)) => {
                    match k {
                        0 => { real.push($one); m.push($conv($one)); }
                        1 => { real.clear(); m.clear(); }
                        2 => { if !m.is_empty() { let i = x as usize % m.len(); real[i] = $one; m[i] = $conv($one); } else { real.push($one); m.push($conv($one)); } }
                        _ => { real.truncate(x as usize % 5); m.truncate(x as usize % 5); }
                    }
                    Ok(())
                }
                (Some(Qv::Val(_)), _) => bad("a value"),
                (Some(Qv::Null), _) => bad("null"),
                (Some(Qv::Undefined), _) => bad("undefined"),
                (None, _) => bad("nothing"),
            }
        }} }
        match ty {
            Ty::Str => {
                let g = both!(p, get_mutable_str(n));
                match (g, &mut *v) {
                    (Some(Qv::Null), Val::Null) | (Some(Qv::Undefined), Val::Undef) => Ok(()),
                    (Some(Qv::Val(real)), Val::Str(m)) => {
                        match k {
                            0 => {
                                real.push('z');
                                m.push('z');
                            }
                            1 => {
                                real.clear();
                                m.clear();
                            }
                            _ => {
                                real.insert(0, '日');
                                m.insert(0, '日');
                            }
                        }
                        Ok(())
                    }
                    _ => bad("something else than a value"),
                }
            }
            Ty::IntArr => go!(get_mutable_int_array, Ints, x as i64, |y: i64| y),
            Ty::FloatArr => go!(get_mutable_float_array, Floats, x as f64, |y: f64| y.to_bits()),
            Ty::Bin => go!(get_mutable_binary, Bin, x, |y: u8| y),
            _ => Ok(()),
        }
    }
    fn list(&mut self, mut p: MListPtr<MItemPtr>, path: &str, def: &ListDef, l: &mut List, depth: usize) -> R {
        let cap = if depth == 0 { 14 } else { 5 };
        if self.walks && self.r.chance(1, 4) {
            return self.walk(p, path, l);
        }
        if self.big && depth < 2 && self.r.chance(1, 25) {
            return self.many(p, path, def, l);
        }
        let mut src = ();
        let wrap = self.r.chance(1, 2);
        // through the pointer or through the safe list
        macro_rules! via { ($f:ident($($a:expr),*)) => {
            if wrap { MListMut::new(p, &mut src).$f($($a),*) } else { #[allow(unused_unsafe)] unsafe { p.$f($($a),*) } }
        } }
        if self.walks && self.r.chance(1, 8) {
            // not possible: must be refused without effect
            let bad = l.floor + self.r.below(4) as u64;
            let any = if l.items.is_empty() { bad + 1 } else { self.r.pick(&l.items).0 };
            self.note(|| format!("requests with the absent ID {} of {}", bad, path));
            let done = [
                via!(remove(bad)), via!(move_to_first(bad)), via!(move_to_last(bad)), via!(move_to_prev(bad, any)), via!(move_to_next(bad, any)),
                via!(move_to_prev(any, bad)), via!(move_to_next(any, bad)), via!(move_to_prev(any, any)), via!(move_to_next(any, any)),
            ];
            ck(done == [false; 9], || format!("{}: requests with the absent ID {} reported success: {:?}", path, bad, done))?;
            if l.items.is_empty() {
                ck(!via!(remove_first()) && !via!(remove_last()), || format!("{}: removal from the empty list reported success", path))?;
            }
            return Ok(());
        }
        let k = self.r.below(20);
        if l.items.is_empty() || (k < 6 && l.items.len() < cap) {
            let first = self.r.chance(1, 3);
            let next = via!(next_id());
            let it = if wrap {
                let mut m = MListMut::new(p, &mut src);
                let it = if first { m.insert_first() } else if self.r.chance(1, 2) { m.insert_last() } else { m.insert() };
                *it
            } else if first {
                p.insert_first()
            } else {
                p.insert_last()
            };
            let id = if first { via!(first_id()) } else { via!(last_id()) };
            let id = id.ok_or_else(|| format!("{}: empty after insert", path))?;
            ck(id == next, || format!("{}: the new item got ID {} although next_id was {}", path, id, next))?;
            let there = [p.get_item_mut(id), if first { p.first_mut() } else { p.last_mut() }, if first { p.first_const() } else { p.last_const() }];
            ck(there.iter().all(|x| x.map(|x| x.item()) == Some(it.item())), || format!("{}: ID {} does not lead to the new item", path, id))?;
            self.note(|| format!("insert_{} {} -> id {}", if first { "first" } else { "last" }, path, id));
            ck(!l.items.iter().any(|x| x.0 == id), || format!("{}: ID {} was given to a new item while in use", path, id))?;
            ck(id >= l.floor, || format!("{}: ID {} was given again (IDs below {} have been used)", path, id, l.floor))?;
            l.floor = id + 1;
            let mut m = Item::default();
            if def.is_enum {
                self.reference(it, path, def, &mut m)?;
            }
            for _ in 0..self.r.below(3) {
                self.item(it, &format!("{}[{}]", path, id), def, &mut m, depth)?;
            }
            if first {
                l.items.insert(0, (id, m));
            } else {
                l.items.push((id, m));
            }
        } else if k < 10 {
            let i = self.r.below(l.items.len());
            let id = l.items[i].0;
            match self.r.below(8) {
                0 => {
                    self.note(|| format!("remove_first {}", path));
                    ck(via!(remove_first()), || format!("remove_first of {} refused", path))?;
                    l.items.remove(0);
                }
                1 => {
                    self.note(|| format!("remove_last {}", path));
                    ck(via!(remove_last()), || format!("remove_last of {} refused", path))?;
                    l.items.pop();
                }
                2 => {
                    // empty the list
                    if self.walks || self.r.chance(1, 2) {
                        let left = if self.r.chance(1, 2) { 0 } else { self.r.below(3) };
                        self.note(|| format!("take {} apart until {} are left", path, left));
                        while l.items.len() > left {
                            let i = self.r.below(l.items.len());
                            let id = l.items[i].0;
                            match self.r.below(6) {
                                0 => {
                                    ck(via!(move_to_first(id)), || format!("move_to_first {} of {} refused", id, path))?;
                                    let x = l.items.remove(i);
                                    l.items.insert(0, x);
                                }
                                1 => {
                                    ck(via!(move_to_last(id)), || format!("move_to_last {} of {} refused", id, path))?;
                                    let x = l.items.remove(i);
                                    l.items.push(x);
                                }
                                2 => {
                                    ck(via!(remove_first()), || format!("remove_first of {} refused", path))?;
                                    l.items.remove(0);
                                }
                                3 | 4 => {
                                    ck(via!(remove_last()), || format!("remove_last of {} refused", path))?;
                                    l.items.pop();
                                }
                                _ => {
                                    ck(via!(remove(id)), || format!("remove {} of {} refused", id, path))?;
                                    l.items.remove(i);
                                }
                            }
                            let ends = (via!(first_id()), via!(last_id()), via!(len()));
                            let want = (l.items.first().map(|x| x.0), l.items.last().map(|x| x.0), l.items.len());
                            ck(ends == want, || format!("{}: first, last and length are {:?} instead of {:?}", path, ends, want))?;
                        }
                        return Ok(());
                    }
                    self.note(|| format!("clear {}", path));
                    for (id, _) in l.items.drain(..) {
                        ck(via!(remove(id)), || format!("remove {} of {} refused", id, path))?;
                    }
                }
                3 => {
                    let bad = l.floor + 3;
                    self.note(|| format!("remove {} of {} (absent)", bad, path));
                    ck(!via!(remove(bad)), || format!("{}: removing the absent ID {} reported success", path, bad))?;
                }
                _ => {
                    self.note(|| format!("remove {} of {}", id, path));
                    ck(via!(remove(id)), || format!("remove {} of {} refused", id, path))?;
                    l.items.remove(i);
                }
            }
        } else if k < 13 {
            let i = self.r.below(l.items.len());
            let j = self.r.below(l.items.len());
            let (id, to) = (l.items[i].0, l.items[j].0);
            match self.r.below(4) {
                0 => {
                    self.note(|| format!("move_to_first {} of {}", id, path));
                    ck(via!(move_to_first(id)), || format!("move_to_first {} of {} refused", id, path))?;
                    let x = l.items.remove(i);
                    l.items.insert(0, x);
                }
                1 => {
                    self.note(|| format!("move_to_last {} of {}", id, path));
                    ck(via!(move_to_last(id)), || format!("move_to_last {} of {} refused", id, path))?;
                    let x = l.items.remove(i);
                    l.items.push(x);
                }
                w => {
                    let prev = w == 2;
                    self.note(|| format!("move {} {} {} of {}", id, if prev { "before" } else { "after" }, to, path));
                    let r = if prev { via!(move_to_prev(to, id)) } else { via!(move_to_next(to, id)) };
                    ck(r == (i != j), || format!("move {} of {} next to {} gave {}", id, path, to, r))?;
                    if i != j {
                        let x = l.items.remove(i);
                        let at = l.items.iter().position(|y| y.0 == to).unwrap() + if prev { 0 } else { 1 };
                        l.items.insert(at, x);
                    }
                }
            }
        } else {
            let i = self.r.below(l.items.len());
            let id = l.items[i].0;
            let it = p.get_item_mut(id).ok_or_else(|| format!("{}: item {} not found", path, id))?;
            self.item(it, &format!("{}[{}]", path, id), def, &mut l.items[i].1, depth)?;
        }
        Ok(())
    }
    /// many items at once, most of which are removed again: large IDs
    fn many(&mut self, mut p: MListPtr<MItemPtr>, path: &str, def: &ListDef, l: &mut List) -> R {
        let n = *self.r.pick(&[20, 60, 100, 130, 260]);
        let left = if self.r.chance(1, 4) && l.items.len() < 40 { n } else { self.r.below(6) };
        self.note(|| format!("insert_last {} {} times, {} stay", path, n, left));
        for i in 0..n {
            let it = p.insert_last();
            let id = p.last_id().ok_or_else(|| format!("{}: empty after insert", path))?;
            ck(id >= l.floor, || format!("{}: ID {} was given again (IDs below {} have been used)", path, id, l.floor))?;
            l.floor = id + 1;
            if n - i > left {
                ck(unsafe { p.remove(id) }, || format!("remove {} of {} refused", id, path))?;
            } else {
                let mut m = Item::default();
                if def.is_enum {
                    self.reference(it, path, def, &mut m)?;
                }
                l.items.push((id, m));
            }
        }
        Ok(())
    }
    /// walks a list with a cursor
    fn walk(&mut self, p: MListPtr<MItemPtr>, path: &str, l: &List) -> R {
        let n = l.items.len();
        let mut at = if n == 0 { None } else { Some(0) };
        let mut x = ();
        let mut steps = vec![];
        macro_rules! go { ($it:expr) => {{
            let mut it = $it;
            for _ in 0..self.r.range(1, 12) {
                let here = at.map(|i: usize| l.items[i].0);
                ck(it.is_available() == at.is_some() && it.is_first() == (at == Some(0)) && it.is_last() == (at.is_some() && at == n.checked_sub(1)), || {
                    format!("{}: cursor at {:?} after {:?}: available {} first {} last {}", path, at, steps, it.is_available(), it.is_first(), it.is_last())
                })?;
                let k = self.r.below(5);
                let got = match k {
                    0 => it.current(),
                    1 | 2 => it.next(),
                    _ => it.prev(),
                };
                let got: Option<(u64, *const _)> = got.map(|x| (x.0, (*x.1).item() as *const _));
                steps.push(["current", "next", "next", "prev", "prev"][k]);
                ck(got.map(|x| x.0) == here, || format!("{}: {:?} gave item {:?} instead of {:?}", path, steps, got.map(|x| x.0), here))?;
                if let Some((id, it)) = got {
                    ck(p.get_item_const(id).map(|x| x.item() as *const _) == Some(it), || format!("{}: {:?} gave another item under ID {}", path, steps, id))?;
                }
                at = match (k, at) {
                    (1 | 2, Some(i)) if i + 1 < n => Some(i + 1),
                    (3 | 4, Some(i)) if i > 0 => Some(i - 1),
                    (0, a) => a,
                    _ => None,
                };
            }
        }} }
        match self.r.below(6) {
            0 => {
                let mut m = MListMut::new(p, &mut x);
                go!(m.iter())
            }
            4 => {
                at = n.checked_sub(1);
                let mut p = p;
                go!(mlist_iter_mut::MListIterMut::new(p.iter_from_last_mut(), &mut x))
            }
            5 => {
                let mut p = p;
                if n > 0 {
                    let i = self.r.below(n);
                    at = Some(i);
                    let it = p.iter_from_id_mut(l.items[i].0).ok_or_else(|| format!("{}: no cursor at item {}", path, l.items[i].0))?;
                    go!(mlist_iter_mut::MListIterMut::new(it, &mut x))
                }
                ck(p.iter_from_id_mut(l.floor + 5).is_none(), || format!("{}: a cursor at an item that does not exist", path))?;
            }
            1 => {
                let m = MListConst::new(p, &x);
                go!(m.iter())
            }
            2 => {
                at = n.checked_sub(1);
                let m = MListConst::new(p, &x);
                go!(m.iter_from_last())
            }
            _ => {
                if n > 0 {
                    let i = self.r.below(n);
                    at = Some(i);
                    let m = MListConst::new(p, &x);
                    let it = m.iter_from_id(l.items[i].0).ok_or_else(|| format!("{}: no cursor at item {}", path, l.items[i].0))?;
                    go!(it)
                }
                ck(MListConst::new(p, &x).iter_from_id(l.floor + 5).is_none(), || format!("{}: a cursor at an item that does not exist", path))?;
            }
        }
        self.note(|| format!("walk {}: {:?}", path, steps));
        Ok(())
    }
    fn reference(&mut self, it: MItemPtr, path: &str, def: &ListDef, m: &mut Item) -> R {
        // several of many references at once
        let n = if def.is_enum { 1 } else { self.several(def.refs.len()) };
        for _ in 0..n {
            self.reference1(it, path, def, m)?;
        }
        Ok(())
    }
    /// how many of many members are changed at once
    fn several(&mut self, of: usize) -> usize {
        if of <= 10 || self.r.chance(1, 2) {
            1
        } else if self.r.chance(1, 6) {
            of
        } else {
            self.r.range(2, 9)
        }
    }
    fn reference1(&mut self, it: MItemPtr, path: &str, def: &ListDef, m: &mut Item) -> R {
        let rd = match pick_opt(&mut self.r, &def.refs) {
            Some(r) => r,
            None => return Ok(()),
        };
        let rows = match self.s.member(&rd.table) {
            Some(RootMember::Table(_, rows)) => rows,
            _ => return Ok(()),
        };
        let row = self.r.pick(rows).0.clone();
        if def.is_enum {
            self.note(|| format!("set_enum {} {} {}", path, rd.table, row));
            ck(mitem::set_enum(it, &rd.table, &row), || format!("set_enum {} refused", path))?;
            m.refs.clear();
            m.refs.insert(rd.table.clone(), Val::Str(row));
        } else {
            let v = if rd.nullable && self.r.chance(1, 4) { Val::Null } else if rd.undef && self.r.chance(1, 3) { Val::Undef } else { Val::Str(row) };
            self.note(|| format!("set_ref {} {} {}", path, rd.table, show(&v)));
            let qv = to_q(&v, |v| if let Val::Str(s) = v { s.clone() } else { unreachable!() });
            ck(mitem::set_ref(it, &rd.table, qv), || format!("set_ref {} refused", path))?;
            m.refs.insert(rd.table.clone(), v);
        }
        Ok(())
    }
    fn item(&mut self, it: MItemPtr, path: &str, def: &ListDef, m: &mut Item, depth: usize) -> R {
        let mut kinds: Vec<usize> = vec![];
        let params: Vec<(&String, &Param)> = def.members.iter().filter_map(|x| if let Member::Param(p) = &x.1 { Some((&x.0, p)) } else { None }).collect();
        let mils: Vec<(&String, &ListDef)> = def.members.iter().filter_map(|x| if let Member::Mil(p, _) = &x.1 { Some((&x.0, &**p)) } else { None }).collect();
        if !params.is_empty() {
            kinds.extend([0, 0]);
        }
        if !mils.is_empty() {
            kinds.extend([1, 1]);
        }
        if !def.refs.is_empty() {
            kinds.push(2);
        }
        match pick_opt(&mut self.r, &kinds) {
            None => Ok(()),
            Some(0) => {
                for _ in 0..self.several(params.len()) {
                    let (n, pd) = *self.r.pick(&params);
                    self.param(P::I(it), &format!("{}.{}", path, n), n, pd, &mut m.set)?;
                }
                Ok(())
            }
            Some(1) => {
                let (n, d) = *self.r.pick(&mils);
                let p = mitem::get_mil_mut::<MItemPtr>(it, n).ok_or_else(|| format!("get_mil_mut({}.{}) gave nothing", path, n))?;
                let l = m.lists.entry(n.clone()).or_insert(None).get_or_insert_with(List::default);
                self.list(p, &format!("{}.{}", path, n), d, l, depth + 1)
            }
            _ => self.reference(it, path, def, m),
        }
    }
}

// ---------------------------------------------------------------- conversion to another source version
pub fn convert(d: &Doc, old: &Schema, new: &Schema) -> Doc {
    let mut r = Doc::init(new);
    for (n, m, _) in &new.members {
        match m {
            RootMember::Param(p) => {
                if old.param(n).is_none() {
                    if p.undef {
                        r.set.insert(n.clone(), Val::Undef);
                    }
                } else if let Some(v) = d.set.get(n) {
                    r.set.insert(n.clone(), v.clone());
                }
            }
            RootMember::MList(def, undef, _) => match old.mlist(n) {
                None => {
                    if *undef {
                        r.lists.insert(n.clone(), None);
                    }
                }
                Some((od, _)) => {
                    let l = d.lists.get(n).and_then(|l| l.as_ref()).map(|l| conv_list(l, od, def));
                    r.lists.insert(n.clone(), l);
                }
            },
            _ => {}
        }
    }
    r
}
fn conv_list(l: &List, od: &ListDef, nd: &ListDef) -> List {
    List { floor: l.floor, items: l.items.iter().map(|(id, it)| (*id, conv_item(it, od, nd))).collect() }
}
fn conv_item(it: &Item, od: &ListDef, nd: &ListDef) -> Item {
    let mut r = Item::default();
    for (n, m) in &nd.members {
        match m {
            Member::Param(p) => {
                if od.param(n).is_none() {
                    if p.undef {
                        r.set.insert(n.clone(), Val::Undef);
                    }
                } else if let Some(v) = it.set.get(n) {
                    r.set.insert(n.clone(), v.clone());
                }
            }
            Member::Mil(d, undef) => match od.member(n) {
                Some(Member::Mil(odd, _)) => match it.lists.get(n) {
                    Some(Some(l)) => {
                        let l = conv_list(l, odd, d);
                        r.lists.insert(n.clone(), Some(l));
                    }
                    Some(None) => {
                        r.lists.insert(n.clone(), None);
                    }
                    None => {}
                },
                _ => {
                    if *undef {
                        r.lists.insert(n.clone(), None);
                    }
                }
            },
            Member::Cil(_) => {}
        }
    }
    for rd in &nd.refs {
        let in_old = od.refs.iter().any(|x| x.table == rd.table);
        if !in_old {
            if rd.undef {
                r.refs.insert(rd.table.clone(), Val::Undef);
            }
        } else if let Some(v) = it.refs.get(&rd.table) {
            r.refs.insert(rd.table.clone(), v.clone());
        }
    }
    r
}
/// Root variables that `late` leaves at their defaults although `over` has values for them.
pub fn lost_keys(late: &Doc, over: &Doc) -> Vec<String> {
    over.set.keys().filter(|k| !late.set.contains_key(*k)).cloned().collect()
}
pub fn modified(r: &RootObject, n: &str) -> bool {
    !root::is_unmodified(rp(r), n)
}
