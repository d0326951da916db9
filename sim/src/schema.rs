//! Random source definitions, their JSON5 text, and their evolution.
use crate::sys::Rng;
use crate::{ser_enum, ser_struct};
use std::collections::BTreeMap;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Ty {
    Bool,
    Int,
    Float,
    Str,
    IntArr,
    FloatArr,
    Bin,
}
ser_enum!(Ty { Bool(), Int(), Float(), Str(), IntArr(), FloatArr(), Bin() });
pub const TYS: [Ty; 7] = [Ty::Bool, Ty::Int, Ty::Float, Ty::Str, Ty::IntArr, Ty::FloatArr, Ty::Bin];

#[derive(Clone, Debug, PartialEq)]
pub enum Val {
    Null,
    Undef,
    Bool(bool),
    Int(i64),
    /// bits
    Float(u64),
    Str(String),
    Ints(Vec<i64>),
    Floats(Vec<u64>),
    Bin(Vec<u8>),
}
ser_enum!(Val { Null(), Undef(), Bool(v), Int(v), Float(v), Str(v), Ints(v), Floats(v), Bin(v) });

#[derive(Clone, Debug, PartialEq)]
pub struct Param {
    pub ty: Ty,
    pub nullable: bool,
    pub undef: bool,
    pub def: Val,
}
ser_struct!(Param { ty, nullable, undef, def });

#[derive(Clone, Debug, PartialEq)]
pub enum Member {
    Param(Param),
    Mil(Box<ListDef>, bool),
    Cil(Box<ListDef>),
}
ser_enum!(Member { Param(p), Mil(d, u), Cil(d) });

#[derive(Clone, Debug, PartialEq)]
pub struct RefDef {
    pub table: String,
    pub nullable: bool,
    pub undef: bool,
    pub def: Val,
}
ser_struct!(RefDef { table, nullable, undef, def });

#[derive(Clone, Debug, PartialEq, Default)]
pub struct ListDef {
    pub members: Vec<(String, Member)>,
    pub refs: Vec<RefDef>,
    pub is_enum: bool,
    /// members and references marked as old
    pub old: Vec<String>,
    pub ref_old: Vec<String>,
}
ser_struct!(ListDef { members, refs, is_enum, old, ref_old });
impl ListDef {
    pub fn member(&self, n: &str) -> Option<&Member> {
        self.members.iter().find(|m| m.0 == n).map(|m| &m.1)
    }
    pub fn param(&self, n: &str) -> Option<&Param> {
        match self.member(n) {
            Some(Member::Param(p)) => Some(p),
            _ => None,
        }
    }
}

#[derive(Clone, Debug, PartialEq, Default)]
pub struct Item {
    pub set: BTreeMap<String, Val>,
    pub lists: BTreeMap<String, Option<List>>,
    pub refs: BTreeMap<String, Val>,
}
ser_struct!(Item { set, lists, refs });

#[derive(Clone, Debug, PartialEq, Default)]
pub struct List {
    /// smallest ID a new item may get
    pub floor: u64,
    pub items: Vec<(u64, Item)>,
}
ser_struct!(List { floor, items });

#[derive(Clone, Debug, PartialEq)]
pub enum RootMember {
    Param(Param),
    MList(ListDef, bool, List),
    CList(ListDef, List),
    Table(ListDef, Vec<(String, Item)>),
}
ser_enum!(RootMember { Param(p), MList(d, u, l), CList(d, l), Table(d, r) });

#[derive(Clone, Debug, PartialEq, Default)]
pub struct Schema {
    /// (name, member, has its own source file)
    pub members: Vec<(String, RootMember, bool)>,
    pub salt: String,
    pub next: u32,
    /// root members and table rows marked as old
    pub old: Vec<String>,
    pub old_rows: Vec<(String, String)>,
}
ser_struct!(Schema { members, salt, next, old, old_rows });

/// Names that were removed may come back with the same type.
impl Schema {
    pub fn member(&self, n: &str) -> Option<&RootMember> {
        self.members.iter().find(|m| m.0 == n).map(|m| &m.1)
    }
    pub fn param(&self, n: &str) -> Option<&Param> {
        match self.member(n) {
            Some(RootMember::Param(p)) => Some(p),
            _ => None,
        }
    }
    pub fn mlist(&self, n: &str) -> Option<(&ListDef, bool)> {
        match self.member(n) {
            Some(RootMember::MList(d, u, _)) => Some((d, *u)),
            _ => None,
        }
    }
    pub fn tables(&self) -> Vec<(&str, &Vec<(String, Item)>)> {
        self.members.iter().filter_map(|m| match &m.1 {
            RootMember::Table(_, r) => Some((m.0.as_str(), r)),
            _ => None,
        }).collect()
    }
    fn fresh(&mut self, prefix: &str) -> String {
        self.next += 1;
        format!("{}{}", prefix, self.next)
    }
}

// ---------------------------------------------------------------- values
pub fn src_val(r: &mut Rng, ty: Ty) -> Val {
    match ty {
        Ty::Bool => Val::Bool(r.chance(1, 2)),
        Ty::Int => Val::Int(src_int(r)),
        Ty::Float => Val::Float(src_float(r)),
        Ty::Str => {
            let n = match r.below(12) {
                0 => r.range(60, 400),
                1 => edge(r, &[16, 256]),
                _ => r.below(9),
            };
            Val::Str((0..n).map(|_| (b'a' + r.below(26) as u8) as char).collect())
        }
        Ty::IntArr => {
            let n = r.below(5);
            Val::Ints((0..n).map(|_| src_int(r)).collect())
        }
        Ty::FloatArr => {
            let n = r.below(4);
            Val::Floats((0..n).map(|_| src_float(r)).collect())
        }
        Ty::Bin => {
            let n = r.below(6);
            Val::Bin((0..n).map(|_| r.below(256) as u8).collect())
        }
    }
}
fn src_int(r: &mut Rng) -> i64 {
    match r.below(5) {
        4 => *r.pick(&[127, 128, -128, -129, 255, 256, 32767, -32768, i32::MAX as i64, i32::MIN as i64, (1 << 53) - 1, 1 - (1 << 53)]),
        0 => r.below(3) as i64 - 1,
        1 => r.below(2000) as i64 - 1000,
        2 => r.below(1 << 40) as i64,
        _ => -(r.below(1 << 33) as i64),
    }
}
fn src_float(r: &mut Rng) -> u64 {
    let x = (r.below(4001) as f64 - 2000.0) / 8.0;
    (if x == 0.0 { 0.0 } else { x }).to_bits()
}
/// Values for edits: everything a type can hold.
pub fn edit_val(r: &mut Rng, ty: Ty, big: bool) -> Val {
    match ty {
        Ty::Bool => Val::Bool(r.chance(1, 2)),
        Ty::Int => Val::Int(any_int(r)),
        Ty::Float => Val::Float(any_float(r)),
        Ty::Str => Val::Str(any_str(r, big)),
        Ty::IntArr => {
            let n = len(r, big) / 4;
            Val::Ints((0..n).map(|_| any_int(r)).collect())
        }
        Ty::FloatArr => {
            let n = len(r, big) / 4;
            Val::Floats((0..n).map(|_| any_float(r)).collect())
        }
        Ty::Bin => {
            let n = len(r, big);
            Val::Bin((0..n).map(|_| r.below(256) as u8).collect())
        }
    }
}
fn len(r: &mut Rng, big: bool) -> usize {
    match r.below(if big { 12 } else { 9 }) {
        0 => 0,
        8 => edge(r, &[16, 64, 128, 256]),
        1..=5 => r.below(12),
        6 => r.below(40),
        7 => r.range(50, 300),
        9 => r.range(300, 3000),
        10 => edge(r, &[1 << 10, 1 << 12, 1 << 13, 1 << 15, 1 << 16]),
        _ => r.range(3000, 20000),
    }
}
/// just below, at or just above a limit
fn edge(r: &mut Rng, at: &[usize]) -> usize {
    *r.pick(at) + r.below(3) - 1
}
fn any_int(r: &mut Rng) -> i64 {
    match r.below(9) {
        // the limits of every width
        8 => {
            let bits = if r.chance(2, 3) { 8 * r.range(1, 7) } else { r.range(1, 61) };
            let v = (1i64 << (bits - r.below(2) as usize)) + r.below(3) as i64 - 1;
            if r.chance(1, 2) { v } else { -v }
        }
        0 => *r.pick(&[0, -1, 1, i64::MIN, i64::MAX, 127, 128, 255, 256, -128, -129, 65535, 65536, i32::MAX as i64, u32::MAX as i64]),
        1 => r.u64() as i64,
        2 => (r.u64() >> r.range(1, 62)) as i64,
        _ => r.below(300) as i64 - 100,
    }
}
fn any_float(r: &mut Rng) -> u64 {
    match r.below(9) {
        // whole numbers around the limits of the narrower types
        8 => {
            let v = (1u64 << *r.pick(&[7, 8, 15, 16, 24, 31, 32, 52, 53, 54, 62, 63])) as f64 + r.below(3) as f64 - 1.0;
            (if r.chance(1, 2) { v } else { -v }).to_bits()
        }
        0 => r.pick(&[0.0, -0.0, f64::NAN, f64::INFINITY, f64::NEG_INFINITY, f64::MIN_POSITIVE, f64::MAX, f64::MIN, 1e-310, 0.1, 1e20, -1e300, f32::MAX as f64]).to_bits(),
        1 => {
            let b = r.u64();
            // signalling NaNs may be changed by the hardware: keep quiet ones only
            if f64::from_bits(b).is_nan() { b | (1 << 51) } else { b }
        }
        2 => (r.u64() as i32 as f64).to_bits(),
        3 => ((r.u64() as i32 as f32) as f64 / 16.0).to_bits(),
        _ => ((r.below(2000) as f64 - 1000.0) / 4.0).to_bits(),
    }
}
fn any_str(r: &mut Rng, big: bool) -> String {
    let n = len(r, big);
    let uni = r.chance(1, 4);
    (0..n).map(|_| {
        if uni && r.chance(1, 3) {
            *r.pick(&['é', '日', '本', '\u{1F600}', '\u{0}', '\n', '"', '\\', 'ß'])
        } else {
            (b' ' + r.below(95) as u8) as char
        }
    }).collect()
}

// ---------------------------------------------------------------- generation
#[derive(Clone, Debug)]
pub struct GenCfg {
    /// scales the number of members and items
    pub size: usize,
}

fn gen_param(r: &mut Rng) -> Param {
    let ty = *r.pick(&TYS);
    let (nullable, undef) = match r.below(10) {
        0..=5 => (false, false),
        6 | 7 => (true, false),
        8 => (false, true),
        _ => (true, true),
    };
    let mut p = Param { ty, nullable, undef, def: Val::Null };
    p.def = gen_def(r, &p);
    p
}
fn gen_def(r: &mut Rng, p: &Param) -> Val {
    if p.nullable && r.chance(1, 3) {
        Val::Null
    } else if p.undef && r.chance(1, 4) {
        Val::Undef
    } else {
        src_val(r, p.ty)
    }
}
fn pname(s: &mut Schema, t: Ty) -> String {
    s.fresh(match t {
        Ty::Bool => "b",
        Ty::Int => "i",
        Ty::Float => "f",
        Ty::Str => "s",
        Ty::IntArr => "ia",
        Ty::FloatArr => "fa",
        Ty::Bin => "bin",
    })
}
/// kind: 0 = mutable list, 1 = constant list, 2 = table
fn gen_listdef(r: &mut Rng, s: &mut Schema, kind: u8, depth: usize, cfg: &GenCfg) -> ListDef {
    let mut d = ListDef::default();
    let n = match r.below(12) {
        0 => 0,
        1 => r.range(11, 15),
        2 if cfg.size > 1 && depth == 0 => if r.chance(1, 4) { r.range(125, 132) } else { r.range(60, 70) },
        _ => r.range(1, 4),
    };
    for _ in 0..n {
        let p = gen_param(r);
        let nm = pname(s, p.ty);
        d.members.push((nm, Member::Param(p)));
    }
    if depth < 2 && r.chance(2, 5) {
        let inner = gen_listdef(r, s, kind, depth + 1, cfg);
        if kind == 0 {
            let u = r.chance(1, 4);
            let nm = s.fresh("m");
            d.members.push((nm, Member::Mil(Box::new(inner), u)));
        } else {
            let nm = s.fresh("c");
            d.members.push((nm, Member::Cil(Box::new(inner))));
        }
    }
    let tabs: Vec<(String, Vec<String>)> = s.tables().iter().filter(|t| !t.1.is_empty()).map(|t| (t.0.to_string(), t.1.iter().map(|x| x.0.clone()).collect())).collect();
    if !tabs.is_empty() {
        if kind != 2 && r.chance(1, 3) {
            d.is_enum = true;
            for t in &tabs {
                d.refs.push(RefDef { table: t.0.clone(), nullable: true, undef: false, def: Val::Null });
            }
        } else if r.chance(1, 2) {
            let all = r.chance(1, 3);
            for t in &tabs {
                if all || r.chance(2, 3) {
                    let nullable = r.chance(1, 2);
                    let undef = r.chance(1, 6);
                    let def = if nullable && r.chance(1, 2) { Val::Null } else { Val::Str(r.pick(&t.1).clone()) };
                    d.refs.push(RefDef { table: t.0.clone(), nullable, undef, def });
                }
            }
        }
    }
    // order of members is arbitrary
    for i in (1..d.members.len()).rev() {
        let j = r.below(i + 1);
        d.members.swap(i, j);
    }
    d
}
fn rows_of(s: &Schema, t: &str) -> Vec<String> {
    match s.member(t) {
        Some(RootMember::Table(_, r)) => r.iter().map(|x| x.0.clone()).collect(),
        _ => vec![],
    }
}
pub fn gen_item(r: &mut Rng, s: &Schema, d: &ListDef, depth: usize) -> Item {
    let mut it = Item::default();
    for (n, m) in &d.members {
        match m {
            Member::Param(p) => {
                if r.chance(2, 5) {
                    let v = gen_def(r, p);
                    it.set.insert(n.clone(), v);
                }
            }
            Member::Mil(inner, _) | Member::Cil(inner) => {
                if r.chance(1, 2) {
                    let k = r.below(3);
                    let items = (0..k).map(|i| (i as u64, gen_item(r, s, inner, depth + 1))).collect();
                    it.lists.insert(n.clone(), Some(List { floor: k as u64, items }));
                }
            }
        }
    }
    if d.is_enum {
        if let Some(rd) = pick_opt(r, &d.refs) {
            let rows = rows_of(s, &rd.table);
            it.refs.insert(rd.table.clone(), Val::Str(r.pick(&rows).clone()));
        }
    } else {
        for rd in &d.refs {
            if r.chance(1, 3) {
                let rows = rows_of(s, &rd.table);
                let v = if rd.nullable && r.chance(1, 4) { Val::Null } else { Val::Str(r.pick(&rows).clone()) };
                it.refs.insert(rd.table.clone(), v);
            }
        }
    }
    it
}
pub fn pick_opt<'a, T>(r: &mut Rng, v: &'a [T]) -> Option<&'a T> {
    if v.is_empty() {
        None
    } else {
        Some(r.pick(v))
    }
}
fn gen_list(r: &mut Rng, s: &Schema, d: &ListDef, max: usize) -> List {
    let k = r.below(max + 1);
    let items = (0..k).map(|i| (i as u64, gen_item(r, s, d, 0))).collect();
    List { floor: k as u64, items }
}
fn add_param(r: &mut Rng, s: &mut Schema) {
    let p = gen_param(r);
    let n = pname(s, p.ty);
    let own = r.chance(1, 5);
    let at = r.below(s.members.len() + 1);
    s.members.insert(at, (n, RootMember::Param(p), own));
}
fn add_table(r: &mut Rng, s: &mut Schema, cfg: &GenCfg) {
    // many tables: small ones
    let small = s.tables().len() > 12 && cfg.size > 1;
    let d = if small {
        let p = gen_param(r);
        let nm = pname(s, p.ty);
        ListDef { members: vec![(nm, Member::Param(p))], ..Default::default() }
    } else {
        gen_listdef(r, s, 2, 0, cfg)
    };
    let k = r.range(1, if small { 2 } else { 4 });
    let rows = (0..k).map(|i| (format!("r{}", i), gen_item(r, s, &d, 0))).collect();
    let n = s.fresh("t");
    let own = r.chance(1, 3);
    s.members.push((n, RootMember::Table(d, rows), own));
}
fn add_clist(r: &mut Rng, s: &mut Schema, cfg: &GenCfg) {
    let d = gen_listdef(r, s, 1, 0, cfg);
    let l = gen_list(r, s, &d, 3);
    let n = s.fresh("cl");
    let own = r.chance(1, 3);
    s.members.push((n, RootMember::CList(d, l), own));
}
fn add_mlist(r: &mut Rng, s: &mut Schema, cfg: &GenCfg) {
    let d = gen_listdef(r, s, 0, 0, cfg);
    let mut l = gen_list(r, s, &d, 4);
    if r.chance(1, 8) {
        l.floor += r.below(20) as u64;
    }
    let n = s.fresh("l");
    let own = r.chance(1, 3);
    let u = r.chance(1, 5);
    s.members.push((n, RootMember::MList(d, u, l), own));
}
pub fn gen_schema(r: &mut Rng, cfg: &GenCfg) -> Schema {
    let mut s = Schema::default();
    s.salt = format!("s{}", r.below(1000));
    let nt = if r.chance(1, 12) { *r.pick(&[11, 12, 13, 25, 40, 70, 100]) } else { *r.pick(&[0, 0, 1, 1, 2]) };
    for _ in 0..if cfg.size > 1 { nt } else { nt.min(2) } {
        add_table(r, &mut s, cfg);
    }
    if r.chance(1, 3) {
        add_clist(r, &mut s, cfg);
    }
    for _ in 0..*r.pick(&[0, 1, 1, 1, 2, 2, 3]) {
        add_mlist(r, &mut s, cfg);
    }
    let np = match r.below(10) {
        0 => r.range(11, 16),
        1 if cfg.size > 1 => r.range(60, 70),
        2 if cfg.size > 1 => r.range(120, 140),
        _ => r.range(1, 5),
    };
    for _ in 0..np {
        add_param(r, &mut s);
    }
    if r.chance(1, 6) {
        mark_old(r, &mut s);
    }
    s
}

/// A changed source: the types of names never change.
pub fn evolve(old: &Schema, r: &mut Rng, cfg: &GenCfg) -> Schema {
    if r.chance(1, 8) {
        if let Some(s) = evolve_names(old, r) {
            return s;
        }
    }
    let mut s = old.clone();
    let n = r.range(1, 4);
    for _ in 0..n {
        match r.below(15) {
            13 => mark_old(r, &mut s),
            14 => widen(r, &mut s),
            0 | 1 => add_param(r, &mut s),
            2 => {
                // remove a root variable
                let c: Vec<usize> = (0..s.members.len()).filter(|i| matches!(s.members[*i].1, RootMember::Param(_))).collect();
                if c.len() > 1 {
                    let i = *r.pick(&c);
                    s.members.remove(i);
                }
            }
            3 => {
                let c: Vec<usize> = (0..s.members.len()).filter(|i| matches!(s.members[*i].1, RootMember::Param(_))).collect();
                if let Some(i) = pick_opt(r, &c) {
                    if let RootMember::Param(p) = &mut s.members[*i].1 {
                        p.def = gen_def(r, &p.clone());
                    }
                }
            }
            4 => add_mlist(r, &mut s, cfg),
            5 => {
                let c: Vec<usize> = (0..s.members.len()).filter(|i| matches!(s.members[*i].1, RootMember::MList(..))).collect();
                if c.len() > 1 && r.chance(1, 2) {
                    let i = *r.pick(&c);
                    s.members.remove(i);
                }
            }
            6 => {
                if r.chance(1, 2) {
                    add_clist(r, &mut s, cfg)
                } else {
                    add_table(r, &mut s, cfg)
                }
            }
            7 | 8 | 9 | 10 => evolve_list(r, &mut s, cfg),
            11 => {
                // add a row or change rows
                let c: Vec<usize> = (0..s.members.len()).filter(|i| matches!(s.members[*i].1, RootMember::Table(..))).collect();
                if let Some(&i) = pick_opt(r, &c) {
                    let sc = s.clone();
                    if let RootMember::Table(d, rows) = &mut s.members[i].1 {
                        let it = gen_item(r, &sc, d, 0);
                        if r.chance(1, 2) {
                            rows.push((format!("r{}", rows.len()), it));
                        } else if !rows.is_empty() {
                            let k = r.below(rows.len());
                            rows[k].1 = it;
                        }
                    }
                }
            }
            _ => {
                // move a member between root.json5 and its own file, or reorder
                if !s.members.is_empty() {
                    let i = r.below(s.members.len());
                    s.members[i].2 = !s.members[i].2;
                }
            }
        }
    }
    if r.chance(1, 6) {
        s = old.clone();
    }
    settle_old(&mut s);
    // the text always changes, so that the identity does
    s.salt = format!("{}x{}", old.salt.split('x').next().unwrap_or(""), r.below(1_000_000));
    s.next = s.next.max(old.next);
    s
}
/// Marks things as old that the source itself does not use.
fn mark_old(r: &mut Rng, s: &mut Schema) {
    for _ in 0..r.range(1, 4) {
        if s.members.is_empty() {
            return;
        }
        let i = r.below(s.members.len());
        let name = s.members[i].0.clone();
        if r.chance(1, 3) {
            s.old.push(name);
            continue;
        }
        match &mut s.members[i].1 {
            RootMember::Table(_, rows) if r.chance(2, 3) => {
                if let Some(row) = pick_opt(r, rows) {
                    let row = row.0.clone();
                    s.old_rows.push((name, row));
                }
            }
            RootMember::Param(_) => {}
            RootMember::MList(d, _, _) | RootMember::CList(d, _) | RootMember::Table(d, _) => mark_old_def(r, d),
        }
    }
    settle_old(s);
}
fn mark_old_def(r: &mut Rng, d: &mut ListDef) {
    if r.chance(1, 3) {
        if let Some(x) = pick_opt(r, &d.refs) {
            d.ref_old.push(x.table.clone());
        }
    }
    if d.members.is_empty() {
        return;
    }
    let i = r.below(d.members.len());
    let n = d.members[i].0.clone();
    match &mut d.members[i].1 {
        Member::Mil(i, _) | Member::Cil(i) if r.chance(1, 2) => mark_old_def(r, i),
        _ => d.old.push(n),
    }
}
/// Takes back the marks of what does not exist or is used by the source.
fn settle_old(s: &mut Schema) {
    let names: Vec<String> = s.members.iter().map(|m| m.0.clone()).collect();
    s.old.retain(|n| names.contains(n));
    s.old.sort();
    s.old.dedup();
    let mut used = vec![];
    for (_, m, _) in s.members.iter_mut() {
        match m {
            RootMember::Param(_) => {}
            RootMember::MList(d, _, l) | RootMember::CList(d, l) => settle_def(d, &l.items.iter().map(|x| &x.1).collect::<Vec<_>>(), &mut used),
            RootMember::Table(d, rows) => settle_def(d, &rows.iter().map(|x| &x.1).collect::<Vec<_>>(), &mut used),
        }
    }
    let rows: Vec<(String, String)> = s.tables().iter().flat_map(|(t, rows)| rows.iter().map(move |x| (t.to_string(), x.0.clone()))).collect();
    s.old_rows.retain(|x| rows.contains(x) && !used.contains(x));
    s.old_rows.sort();
    s.old_rows.dedup();
}
fn settle_def(d: &mut ListDef, items: &[&Item], used: &mut Vec<(String, String)>) {
    let names: Vec<String> = d.members.iter().map(|m| m.0.clone()).collect();
    d.old.retain(|n| names.contains(n) && !items.iter().any(|i| i.set.contains_key(n) || i.lists.contains_key(n)));
    d.old.sort();
    d.old.dedup();
    let refs: Vec<String> = d.refs.iter().map(|m| m.table.clone()).collect();
    d.ref_old.retain(|n| refs.contains(n) && !items.iter().any(|i| i.refs.contains_key(n)));
    d.ref_old.sort();
    d.ref_old.dedup();
    for x in &d.refs {
        if let Val::Str(id) = &x.def {
            used.push((x.table.clone(), id.clone()));
        }
    }
    for i in items {
        for (t, v) in &i.refs {
            if let Val::Str(id) = v {
                used.push((t.clone(), id.clone()));
            }
        }
    }
    for (n, m) in d.members.iter_mut() {
        if let Member::Mil(inner, _) | Member::Cil(inner) = m {
            let sub: Vec<&Item> = items.iter().filter_map(|i| i.lists.get(n).and_then(|l| l.as_ref())).flat_map(|l| l.items.iter().map(|x| &x.1)).collect();
            settle_def(inner, &sub, used);
        }
    }
}
/// What could not be null or undefined now can.
fn widen(r: &mut Rng, s: &mut Schema) {
    if s.members.is_empty() {
        return;
    }
    let i = r.below(s.members.len());
    match &mut s.members[i].1 {
        RootMember::Param(p) => widen_param(r, p),
        RootMember::MList(d, u, _) => {
            if r.chance(1, 3) {
                *u = true;
            } else {
                widen_def(r, d);
            }
        }
        RootMember::CList(d, _) | RootMember::Table(d, _) => widen_def(r, d),
    }
}
fn widen_param(r: &mut Rng, p: &mut Param) {
    if r.chance(1, 2) {
        p.nullable = true;
    } else {
        p.undef = true;
    }
}
fn widen_def(r: &mut Rng, d: &mut ListDef) {
    if !d.is_enum && !d.refs.is_empty() && r.chance(1, 3) {
        let i = r.below(d.refs.len());
        if r.chance(1, 2) {
            d.refs[i].nullable = true;
        } else {
            d.refs[i].undef = true;
        }
        return;
    }
    if d.members.is_empty() {
        return;
    }
    let i = r.below(d.members.len());
    match &mut d.members[i].1 {
        Member::Param(p) => widen_param(r, p),
        Member::Mil(inner, u) => {
            if r.chance(1, 2) {
                *u = true;
            } else {
                widen_def(r, inner);
            }
        }
        Member::Cil(inner) => widen_def(r, inner),
    }
}
/// Changes which file has which contents, but nothing else.
fn evolve_names(old: &Schema, r: &mut Rng) -> Option<Schema> {
    let mut s = old.clone();
    let own: Vec<usize> = (0..s.members.len()).filter(|i| s.members[*i].2 && !matches!(s.members[*i].1, RootMember::Table(..))).collect();
    let i = *pick_opt(r, &own)?;
    if r.chance(1, 2) {
        let p = s.members[i].0.trim_end_matches(|c: char| c.is_ascii_digit()).to_string();
        s.members[i].0 = s.fresh(&p);
        settle_old(&mut s);
        return Some(s);
    }
    for j in own {
        let (mut a, mut b) = (s.members[i].1.clone(), s.members[j].1.clone());
        if let (RootMember::Param(x), RootMember::Param(y)) = (&mut a, &mut b) {
            if x.ty == y.ty && x.nullable == y.nullable && x.undef == y.undef && x.def != y.def {
                std::mem::swap(&mut x.def, &mut y.def);
                s.members[i].1 = a;
                s.members[j].1 = b;
                return Some(s);
            }
        }
    }
    None
}
fn evolve_list(r: &mut Rng, s: &mut Schema, cfg: &GenCfg) {
    let c: Vec<usize> = (0..s.members.len()).filter(|i| !matches!(s.members[*i].1, RootMember::Param(_))).collect();
    let i = match pick_opt(r, &c) {
        Some(i) => *i,
        None => return,
    };
    let mut m = s.members[i].1.clone();
    match &mut m {
        RootMember::MList(d, _, l) => {
            let path = evolve_def(r, s, d, 0, cfg, 0);
            if let Some(p) = path {
                strip_list(l, &p);
            }
            if r.chance(1, 4) {
                *l = gen_list(r, s, d, 4);
            }
        }
        RootMember::CList(d, l) => {
            let path = evolve_def(r, s, d, 1, cfg, 0);
            if let Some(p) = path {
                strip_list(l, &p);
            }
            if r.chance(1, 2) {
                *l = gen_list(r, s, d, 4);
            }
        }
        RootMember::Table(d, rows) => {
            let path = evolve_def(r, s, d, 2, cfg, 0);
            if let Some(p) = path {
                for x in rows.iter_mut() {
                    strip_item(&mut x.1, &p);
                }
            }
        }
        _ => {}
    }
    s.members[i].1 = m;
}
/// Changes a list definition; the path of a removed member is returned.
fn evolve_def(r: &mut Rng, s: &mut Schema, d: &mut ListDef, kind: u8, cfg: &GenCfg, depth: usize) -> Option<Vec<String>> {
    let nested: Vec<usize> = (0..d.members.len()).filter(|i| !matches!(d.members[*i].1, Member::Param(_))).collect();
    if !nested.is_empty() && r.chance(2, 5) {
        let i = *r.pick(&nested);
        let name = d.members[i].0.clone();
        match &mut d.members[i].1 {
            Member::Mil(inner, _) | Member::Cil(inner) => {
                let mut p = evolve_def(r, s, inner, kind, cfg, depth + 1)?;
                p.insert(0, name);
                return Some(p);
            }
            _ => return None,
        }
    }
    match r.below(7) {
        6 => {
            // another reference
            let tabs: Vec<(String, Vec<String>)> = s.tables().iter().filter(|t| !t.1.is_empty() && !d.refs.iter().any(|x| x.table == t.0)).map(|t| (t.0.to_string(), t.1.iter().map(|x| x.0.clone()).collect())).collect();
            if let (Some(t), false, true) = (pick_opt(r, &tabs), d.is_enum, kind != 2) {
                let nullable = r.chance(1, 2);
                let def = if nullable && r.chance(1, 2) { Val::Null } else { Val::Str(r.pick(&t.1).clone()) };
                d.refs.push(RefDef { table: t.0.clone(), nullable, undef: r.chance(1, 2), def });
            }
            None
        }
        0 | 1 | 2 => {
            if depth < 2 && r.chance(1, 4) {
                let inner = gen_listdef(r, s, kind, depth + 1, cfg);
                if kind == 0 {
                    let u = r.chance(1, 3);
                    let nm = s.fresh("m");
                    d.members.push((nm, Member::Mil(Box::new(inner), u)));
                } else {
                    let nm = s.fresh("c");
                    d.members.push((nm, Member::Cil(Box::new(inner))));
                }
            } else {
                let p = gen_param(r);
                let nm = pname(s, p.ty);
                let at = r.below(d.members.len() + 1);
                d.members.insert(at, (nm, Member::Param(p)));
            }
            None
        }
        3 => {
            if d.members.is_empty() {
                return None;
            }
            let i = r.below(d.members.len());
            let m = d.members.remove(i);
            Some(vec![m.0])
        }
        4 => {
            let c: Vec<usize> = (0..d.members.len()).filter(|i| matches!(d.members[*i].1, Member::Param(_))).collect();
            if let Some(i) = pick_opt(r, &c) {
                if let Member::Param(p) = &mut d.members[*i].1 {
                    p.def = gen_def(r, &p.clone());
                }
            }
            None
        }
        _ => {
            if d.members.len() > 1 {
                let (a, b) = (r.below(d.members.len()), r.below(d.members.len()));
                d.members.swap(a, b);
            }
            None
        }
    }
}
fn strip_list(l: &mut List, path: &[String]) {
    for (_, it) in l.items.iter_mut() {
        strip_item(it, path);
    }
}
fn strip_item(it: &mut Item, path: &[String]) {
    if path.len() == 1 {
        it.set.remove(&path[0]);
        it.lists.remove(&path[0]);
    } else if let Some(Some(inner)) = it.lists.get_mut(&path[0]) {
        strip_list(inner, &path[1..]);
    }
}

// ---------------------------------------------------------------- JSON5 text
fn suffix(nullable: bool, undef: bool) -> &'static str {
    match (nullable, undef) {
        (false, false) => "",
        (true, false) => "?",
        (false, true) => "!",
        (true, true) => "!?",
    }
}
fn jval(v: &Val, ty: Ty) -> String {
    let tag = match ty {
        Ty::Bool => "Bool",
        Ty::Int => "Int",
        Ty::Float => "Float",
        Ty::Str => "Str",
        Ty::IntArr => "IntArray",
        Ty::FloatArr => "FloatArray",
        Ty::Bin => "Binary",
    };
    match v {
        Val::Null => format!("[\"{}\", null]", tag),
        Val::Undef => format!("[\"{}\", undefined]", tag),
        Val::Bool(b) => b.to_string(),
        Val::Int(i) => i.to_string(),
        Val::Float(f) => jf(*f),
        Val::Str(s) => format!("\"{}\"", s),
        Val::Ints(v) => jarr(tag, v.iter().map(|x| x.to_string())),
        Val::Floats(v) => jarr(tag, v.iter().map(|x| jf(*x))),
        Val::Bin(v) => jarr(tag, v.iter().map(|x| x.to_string())),
    }
}
fn jf(b: u64) -> String {
    format!("{:?}", f64::from_bits(b))
}
fn jarr(tag: &str, it: impl Iterator<Item = String>) -> String {
    let mut s = format!("[\"{}\"", tag);
    for x in it {
        s.push_str(", ");
        s.push_str(&x);
    }
    s.push(']');
    s
}
fn jref(v: &Val) -> String {
    match v {
        Val::Str(s) => format!("\"{}\"", s),
        Val::Null => "null".into(),
        _ => "undefined".into(),
    }
}
fn jdef(d: &ListDef) -> String {
    let mut v = vec![];
    for (n, m) in &d.members {
        match m {
            Member::Param(p) => v.push(format!("\"{}{}\": {}", n, suffix(p.nullable, p.undef), jval(&p.def, p.ty))),
            Member::Mil(i, u) => v.push(format!("\"{}{}\": [\"MilDef\", [{}]]", n, suffix(false, *u), jdef(i))),
            Member::Cil(i) => v.push(format!("\"{}\": [\"CilDef\", [{}]]", n, jdef(i))),
        }
    }
    if !d.refs.is_empty() {
        let k = if d.is_enum { "Enum" } else { "Ref" };
        let rs: Vec<String> = d.refs.iter().map(|r| format!("\"{}{}\": {}", r.table, suffix(r.nullable, r.undef), jref(&r.def))).collect();
        let old = if d.ref_old.is_empty() { String::new() } else { format!(", Old: {:?}", d.ref_old) };
        v.push(format!("{}: {{ {}{} }}", k, rs.join(", "), old));
    }
    if !d.old.is_empty() {
        v.push(format!("Old: {:?}", d.old));
    }
    format!("{{ {} }}", v.join(", "))
}
fn jitem(d: &ListDef, it: &Item, id: Option<&str>) -> String {
    let mut v = vec![];
    if let Some(id) = id {
        v.push(format!("ID: \"{}\"", id));
    }
    for (n, m) in &d.members {
        match m {
            Member::Param(p) => {
                if let Some(x) = it.set.get(n) {
                    v.push(format!("{}: {}", n, jval(x, p.ty)));
                }
            }
            Member::Mil(i, _) => {
                if let Some(Some(l)) = it.lists.get(n) {
                    v.push(format!("{}: {}", n, jlist("Mil", None, i, l)));
                }
            }
            Member::Cil(i) => {
                if let Some(Some(l)) = it.lists.get(n) {
                    v.push(format!("{}: {}", n, jlist("Cil", None, i, l)));
                }
            }
        }
    }
    if !it.refs.is_empty() {
        let k = if d.is_enum { "Enum" } else { "Ref" };
        let rs: Vec<String> = it.refs.iter().map(|(n, x)| format!("{}: {}", n, jref(x))).collect();
        v.push(format!("{}: {{ {} }}", k, rs.join(", ")));
    }
    format!("{{ {} }}", v.join(", "))
}
fn jlist(tag: &str, def: Option<&ListDef>, d: &ListDef, l: &List) -> String {
    let mut v = vec![format!("\"{}\"", tag)];
    if let Some(d) = def {
        v.push(format!("[{}]", jdef(d)));
    }
    if def.is_some() && tag == "MList" && l.floor != l.items.len() as u64 {
        v.push(format!("[\"NextID\", {}]", l.floor));
    }
    for (_, i) in &l.items {
        v.push(jitem(d, i, None));
    }
    format!("[{}]", v.join(",\n  "))
}
impl Schema {
    /// (file name, text)
    pub fn files(&self) -> Vec<(String, String)> {
        let mut root = format!("{{\n// {}\n", self.salt);
        let mut out = vec![];
        for (n, m, own) in &self.members {
            let (suf, txt) = match m {
                RootMember::Param(p) => (suffix(p.nullable, p.undef), jval(&p.def, p.ty)),
                RootMember::MList(d, u, l) => (suffix(false, *u), jlist("MList", Some(d), d, l)),
                RootMember::CList(d, l) => ("", jlist("CList", Some(d), d, l)),
                RootMember::Table(d, rows) => {
                    let mut v = vec!["\"Table\"".to_string(), format!("[{}]", jdef(d))];
                    let old: Vec<String> = self.old_rows.iter().filter(|x| &x.0 == n).map(|x| format!(", {:?}", x.1)).collect();
                    if !old.is_empty() {
                        v.push(format!("[\"Old\"{}]", old.concat()));
                    }
                    for (id, it) in rows {
                        v.push(jitem(d, it, Some(id)));
                    }
                    ("", format!("[{}]", v.join(",\n  ")))
                }
            };
            if *own {
                out.push((format!("{}{}.json5", n, suf), txt));
            } else {
                root.push_str(&format!("\"{}{}\": {},\n", n, suf, txt));
            }
        }
        if !self.old.is_empty() {
            root.push_str(&format!("Old: {:?},\n", self.old));
        }
        root.push_str("}\n");
        out.push(("root.json5".into(), root));
        out
    }
}
