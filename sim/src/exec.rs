//! Executes one incarnation of a plan against the real code and checks it
//! against the journal (what was saved, what may exist, what was removed).
use crate::model::*;
use crate::plan::*;
use crate::rt::*;
use crate::schema::*;
use crate::sys::*;
use crate::vfs::Vfs;
use crate::{ser_enum, ser_struct};
use dochy_core::structs::RootObject;
use dochy_fs::common::*;
use dochy_fs::filesys::*;
use dochy_fs::history::*;
use std::collections::{BTreeMap, BTreeSet};
use std::panic::{catch_unwind, AssertUnwindSafe};

// ---------------------------------------------------------------- journal
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum HSt {
    Certain,
    /// removal was requested and completed: may be gone, but if listed it must load
    Unsure,
    /// removal was interrupted: may be gone or unusable
    Broken,
    Removed,
}
ser_enum!(HSt { Certain(), Unsure(), Broken(), Removed() });

#[derive(Clone, Debug)]
pub struct HEnt {
    pub dir: u8,
    pub ver: u32,
    pub file: String,
    pub tag: Option<String>,
    pub doc: Doc,
    pub start: u64,
    pub end: u64,
    /// position in the queue of non-blocking saves (0 = blocking)
    pub fifo: u64,
    pub st: HSt,
}
ser_struct!(HEnt { dir, ver, file, tag, doc, start, end, fifo, st });

/// A save that failed or was cut off: absent, or complete under some name.
#[derive(Clone, Debug)]
pub struct Maybe {
    pub dir: u8,
    pub ver: u32,
    pub tag: Option<String>,
    pub doc: Doc,
    pub start: u64,
    pub end: u64,
    pub fifo: u64,
}
ser_struct!(Maybe { dir, ver, tag, doc, start, end, fifo });

#[derive(Clone, Debug)]
pub struct FSt {
    /// None: the file is absent
    pub doc: Option<Doc>,
    pub start: u64,
    pub end: u64,
    pub open: bool,
}
ser_struct!(FSt { doc, start, end, open });
#[derive(Clone, Debug)]
pub struct FEnt {
    pub dir: u8,
    pub ver: u32,
    pub name: String,
    pub states: Vec<FSt>,
    /// made by a save that must not overwrite, and not removed since
    pub made: bool,
}
ser_struct!(FEnt { dir, ver, name, states, made });

#[derive(Clone, Debug)]
pub struct Nb {
    pub file: bool,
    pub dir: u8,
    pub ver: u32,
    pub tag: Option<String>,
    pub doc: Doc,
    pub start: u64,
    pub called: u32,
    pub fired0: u64,
    pub name: String,
    pub overwrite: bool,
    pub exists: bool,
    pub slot: u8,
}

#[derive(Clone, Debug)]
pub enum Inflight {
    His(Maybe),
}

#[derive(Clone, Debug, Default)]
pub struct World {
    pub tick: u64,
    pub hashes: Vec<u128>,
    pub his: Vec<HEnt>,
    pub maybe: Vec<Maybe>,
    pub files: Vec<FEnt>,
    /// damaged path -> original contents
    pub stash: BTreeMap<String, Option<Vec<u8>>>,
    pub cnt: Counters,
    pub foreign: BTreeSet<String>,
    pub clock_jumped: bool,
    pub src_edited: Option<u32>,
}
ser_struct!(World { tick, hashes, his, maybe, files, stash, cnt, foreign, clock_jumped, src_edited });

/// What an incarnation leaves behind.
#[derive(Clone, Debug)]
pub struct Outcome {
    pub status: Status,
    pub world: World,
    pub vfs: Vfs,
    pub now: u64,
    pub rt_off: i64,
    pub trace: Vec<Dec>,
    pub hash: u64,
    pub ilv: u64,
    pub points: u64,
    pub cnt: Counters,
    pub log: Vec<String>,
}
ser_struct!(Outcome { status, world, vfs, now, rt_off, trace, hash, ilv, points, cnt, log });

pub struct Ctx {
    pub plan: &'static Plan,
    pub inc: usize,
    pub ver: u32,
    pub s: &'static Schema,
    pub w: World,
    pub nbs: Vec<Nb>,
    pub inflight: BTreeMap<u64, Inflight>,
    pub h: [Option<&'static HistoryInfo>; NDIRS as usize],
    pub f: [Option<&'static SaveDirInfo>; NDIRS as usize],
    pub quiesced: bool,
    /// callbacks that are to use the library
    pub chains: u32,
    /// the source archive in use after a switch
    pub switched: Option<u32>,
    pub par: bool,
    /// slot of the document a directory continues, as far as known
    pub cont: [Option<u8>; NDIRS as usize],
    /// contents of document files that were overwritten, and when
    pub over: Vec<(u8, u32, String, FSt, u64)>,
    pub sink: fn(&Outcome) -> !,
    pub op_no: usize,
}
static mut CTX: *mut Ctx = std::ptr::null_mut();
fn c() -> &'static mut Ctx {
    unsafe { &mut *CTX }
}

pub struct Slot {
    pub root: Box<RootObject>,
    pub doc: Doc,
    /// stored versions that are older states of this document
    pub past: Vec<(u8, u32, FileNameProps)>,
}
pub struct Th {
    pub slots: Vec<Option<Slot>>,
    pub id: u64,
}

fn finish(st: Status) -> ! {
    unsafe { BUSY = true };
    let r = rt();
    let x = c();
    let mut st = st;
    if let Status::Crashed = st {
        x.w.tick += 1;
        let t = x.w.tick;
        for (_, i) in std::mem::take(&mut x.inflight) {
            let Inflight::His(mut m) = i;
            m.end = t;
            x.w.maybe.push(m);
        }
        for (i, nb) in x.nbs.iter().enumerate() {
            if nb.called == 0 && !nb.file {
                x.w.maybe.push(Maybe { dir: nb.dir, ver: nb.ver, tag: nb.tag.clone(), doc: nb.doc.clone(), start: nb.start, end: t, fifo: i as u64 + 1 });
            }
        }
        for f in x.w.files.iter_mut() {
            for s in f.states.iter_mut() {
                if s.open {
                    s.open = false;
                    s.end = t;
                }
            }
        }
    }
    if let Status::Violation(k, d) = &mut st {
        // say where: the operation being executed and panics seen so far
        *d = format!("{} [incarnation {}, operation {}]", d, x.inc, x.op_no);
        if !r.panics.is_empty() && k != "panic" {
            *d = format!("{} (panics: {})", d, r.panics.join("; "));
        }
    }
    let mut cnt = std::mem::take(&mut r.cnt);
    cnt.merge(&x.w.cnt);
    x.w.cnt = Counters::default();
    let o = Outcome {
        status: st,
        world: std::mem::take(&mut x.w),
        vfs: std::mem::replace(&mut r.vfs, Vfs::new()),
        now: r.now,
        rt_off: r.rt_off,
        trace: std::mem::take(&mut r.trace),
        hash: r.hash,
        ilv: r.ilv,
        points: r.npoint,
        cnt,
        log: r.log.take().unwrap_or_default(),
    };
    (x.sink)(&o)
}
pub fn viol(kind: &str, detail: String) -> ! {
    unsafe { BUSY = true };
    rt().logf(|| format!("VIOLATION {}: {}", kind, detail));
    finish(Status::Violation(kind.into(), detail))
}
/// Calls into the code under test; a panic reaching the caller is a violation.
fn call<T>(what: &str, f: impl FnOnce() -> T) -> T {
    rt().max_points = rt().npoint + CALL_POINTS;
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(x) => x,
        Err(_) => {
            let m = rt().panics.last().cloned().unwrap_or_default();
            viol("panic", format!("{} panicked: {}", what, m))
        }
    }
}
fn tick() -> u64 {
    c().w.tick += 1;
    c().w.tick
}
fn say(f: impl FnOnce() -> String) {
    quiet(|| rt().logf(f));
}
fn ev(a: u64, b: &str) {
    quiet(|| rt().event(0x90, a, fnv(5, b.as_bytes())));
}
fn note(k: &str) {
    quiet(|| c().w.cnt.add(k, 1));
}

pub fn hdir(d: u8) -> String {
    format!("/sim/h{}", d)
}
pub fn fdir(d: u8) -> String {
    format!("/sim/s{}", d)
}

// ---------------------------------------------------------------- incarnation
pub struct RunArgs {
    pub plan: &'static Plan,
    pub inc: usize,
    pub world: World,
    pub vfs: Vfs,
    pub now: u64,
    pub rt_off: i64,
    pub replay: Option<Vec<Dec>>,
    pub log: bool,
    pub sink: fn(&Outcome) -> !,
}
fn put_source(v: &mut Vfs, s: &Schema, now: i64) {
    v.mkdir_p("/sim/src", now);
    for f in v.list_dir("/sim/src") {
        v.remove_file(&format!("/sim/src/{}", f));
    }
    for (n, t) in s.files() {
        v.put_file(&format!("/sim/src/{}", n), t.into_bytes(), now);
    }
    // what is not a source file does not belong to the source
    let h = fnv(3, s.salt.as_bytes());
    if h % 4 == 0 {
        v.put_file("/sim/src/readme.txt", format!("read me {}", h).into_bytes(), now);
    }
    if h % 5 == 0 {
        v.put_file("/sim/src/LICENSE", b"any use".to_vec(), now);
    }
    if h % 8 > 4 {
        v.mkdir_p("/sim/src/older", now);
        v.put_file("/sim/src/older/root.json5", b"{ zz: 1 }".to_vec(), now);
    }
}
pub fn run_inc(a: RunArgs) -> ! {
    let inc = &a.plan.incs[a.inc];
    std::env::set_var("RAYON_NUM_THREADS", inc.policy.workers.to_string());
    std::panic::set_hook(Box::new(|i| {
        quiet(|| {
            let m = i.payload().downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| i.payload().downcast_ref::<String>().cloned()).unwrap_or_default();
            // source positions change with every edit of the code: leave them out of hashes
            let l = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
            let r = rt();
            r.logf(|| format!("panic: {} ({})", m, l));
            r.panics.push(clip(&format!("{} ({})", m, l)));
        })
    }));
    let mut v = a.vfs;
    let s: &'static Schema = &a.plan.schemas[inc.ver as usize];
    let rtoff = a.rt_off + if a.inc > 0 { inc.gap * 1_000_000_000 } else { 0 };
    let wall = REAL_BASE * 1_000_000_000 + a.now as i64 + rtoff;
    for d in 0..NDIRS {
        v.mkdir_p(&hdir(d), wall);
        v.mkdir_p(&fdir(d), wall);
    }
    v.mkdir_p("/sim/arc", wall);
    put_source(&mut v, s, wall);
    let mut w = a.world;
    while w.hashes.len() < a.plan.schemas.len() {
        w.hashes.push(0);
    }
    w.src_edited = None;
    let x = Box::new(Ctx {
        plan: a.plan,
        inc: a.inc,
        ver: inc.ver,
        s,
        w,
        nbs: vec![],
        inflight: BTreeMap::new(),
        h: [None; NDIRS as usize],
        f: [None; NDIRS as usize],
        quiesced: true,
        chains: 0,
        switched: None,
        par: false,
        cont: Default::default(),
        over: vec![],
        sink: a.sink,
        op_no: 0,
    });
    unsafe { CTX = Box::into_raw(x) };
    start(StartArgs { policy: inc.policy.clone(), replay: a.replay, vfs: v, now: a.now, rt_off: rtoff, log: a.log, finish });
    let mut th = Th { slots: (0..4).map(|_| None).collect(), id: 0 };
    if inc.arc {
        make_archive("/sim/arc/src.arc");
    }
    for (i, o) in inc.ops.iter().enumerate() {
        quiet(|| {
            c().op_no = i;
            rt().armed.extend(o.faults.iter().cloned());
        });
        let tree = if a.plan.flags.tree { Some(quiet(|| tree_of())) } else { None };
        rt().kept = false;
        say(|| format!("--- op {}: {:?}{}", i, brief(&o.op), if o.faults.is_empty() { String::new() } else { format!(" faults {:?}", o.faults) }));
        ev(i as u64, "op");
        exec(&mut th, &o.op);
        let bg = matches!(o.op, Op::SaveNb(..) | Op::SaveNbThen(..) | Op::SaveVac(..) | Op::FSaveNb(..) | Op::Quota(_) | Op::Edit(..) | Op::Sleep(_));
        if !bg {
            quiet(|| rt().armed.clear());
        }
        if let Some(t) = tree {
            quiet(|| check_tree(&o.op, t));
        }
        quiet(|| {
            check_memory();
            for (k, s) in th.slots.iter().enumerate() {
                if let Some(s) = s {
                    if let Err(e) = compare(c().s, &s.doc, &s.root) {
                        viol("document", format!("document {} changed unexpectedly: {}", k, e));
                    }
                }
            }
        });
    }
    quiet(|| {
        c().op_no = inc.ops.len();
        rt().armed.clear();
        rt().vfs.quota = u64::MAX;
    });
    drain();
    quiet(|| {
        crate::alloc::sweep();
        check_memory();
    });
    unsafe { BUSY = true };
    finish(Status::Done)
}
fn check_memory() {
    if crate::alloc::misused() {
        viol("memory", "memory was written to or freed after it had been freed".into());
    }
}
fn brief(o: &Op) -> String {
    let s = format!("{:?}", o);
    clip(&s)
}
fn make_archive(path: &str) {
    let r = call("create_archive", || -> Result<(), String> {
        let mut f = std::fs::File::create(path).map_err(|e| e.to_string())?;
        CurrentSrc::from_src_dir("/sim/src").create_archive(&mut f).map_err(|e| e.to_string())
    });
    if let Err(e) = r {
        viol("error", format!("archiving the source failed without a fault: {}", e));
    }
}
fn cur_src() -> CurrentSrc {
    if let Some(v) = c().switched {
        return CurrentSrc::from_archive_file(format!("/sim/arc/v{}.arc", v));
    }
    if c().plan.incs[c().inc].arc {
        CurrentSrc::from_archive_file("/sim/arc/src.arc")
    } else {
        CurrentSrc::from_src_dir("/sim/src")
    }
}
fn fired() -> u64 {
    rt().fired
}
/// An error result: fine after an injected fault, otherwise a violation.
fn err(what: &str, fired0: u64, e: impl std::fmt::Display) {
    let e = e.to_string();
    say(|| format!("{} -> error: {}", what, e));
    ev(2, "err");
    // saves may refuse to archive an edited source
    if fired() == fired0 && !(c().w.src_edited.is_some() && what.starts_with("save_")) {
        viol("error", format!("{} failed although nothing went wrong: {}", what, clip(&e)));
    }
    note("reported_errors");
}

fn options(o: &Opts) -> HistoryOptions {
    let mut b = HistoryOptionsBuilder::new().max_phase(o.max_phase as usize).update_phase_0(o.upd0).mt_save(o.mt_save).mt_load(o.mt_load);
    b = b.cumulative(if o.cum { Some(CumulativeOptionsBuilder::new().limit_nth(o.nth.map(|x| x as usize)).limit_count(o.count.map(|x| x as usize))) } else { None });
    b.build().unwrap()
}
fn check_source(what: &str, hash: u128, root: &RootObject) {
    quiet(|| {
        let x = c();
        let v = x.ver as usize;
        if x.w.hashes[v] == 0 {
            if let Some(o) = (0..x.w.hashes.len()).find(|i| *i != v && x.w.hashes[*i] == hash) {
                viol("identity", format!("{}: source versions {} and {} have the same identity {:x}", what, o, v, hash));
            }
            x.w.hashes[v] = hash;
        } else if x.w.hashes[v] != hash {
            viol("identity", format!("{}: the same source has identity {:x} now and {:x} before", what, hash, x.w.hashes[v]));
        }
        if let Err(e) = compare(x.s, &Doc::init(x.s), root) {
            viol("source", format!("{}: source read wrongly: {}", what, e));
        }
    })
}
fn his_info(d: u8) -> Option<&'static HistoryInfo> {
    if let Some(h) = c().h[d as usize] {
        return Some(h);
    }
    let f0 = fired();
    let o = c().plan.opts_of(c().ver);
    let r = call("HistoryInfo::create", || {
        if o.default {
            HistoryInfo::create(hdir(d), cur_src(), ())
        } else {
            HistoryInfo::create(hdir(d), cur_src(), options(o))
        }
    });
    match r {
        Ok(h) => {
            let h: &'static HistoryInfo = Box::leak(Box::new(h));
            check_source("HistoryInfo::create", h.hash(), &h.clone_src_root());
            c().h[d as usize] = Some(h);
            Some(h)
        }
        Err(e) => {
            err("HistoryInfo::create", f0, e);
            None
        }
    }
}
fn file_info(d: u8) -> Option<&'static SaveDirInfo> {
    if let Some(h) = c().f[d as usize] {
        return Some(h);
    }
    let f0 = fired();
    match call("SaveDirInfo::create", || SaveDirInfo::create(fdir(d), cur_src())) {
        Ok(h) => {
            let h: &'static SaveDirInfo = Box::leak(Box::new(h));
            check_source("SaveDirInfo::create", h.hash(), &h.clone_src_root());
            c().f[d as usize] = Some(h);
            Some(h)
        }
        Err(e) => {
            err("SaveDirInfo::create", f0, e);
            None
        }
    }
}
fn ver_of(hash: u128) -> Option<u32> {
    c().w.hashes.iter().position(|h| *h == hash && hash != 0).map(|i| i as u32)
}

fn new_slot() -> Option<Slot> {
    let root = match his_info(0) {
        Some(h) => h.clone_src_root(),
        None => return None,
    };
    Some(Slot { root: Box::new(root), doc: Doc::init(c().s), past: vec![] })
}
fn ensure(th: &mut Th, s: u8) -> bool {
    if th.slots[s as usize].is_none() {
        th.slots[s as usize] = new_slot();
    }
    th.slots[s as usize].is_some()
}

fn exec(th: &mut Th, op: &Op) {
    if !matches!(op, Op::Save(..) | Op::Edit(..) | Op::List(_) | Op::Cmp(..) | Op::Sleep(_) | Op::Clock(_) | Op::Load(..) | Op::Newest(..)) {
        c().cont = Default::default();
    }
    match op {
        Op::New(s) => {
            if let Some(n) = new_slot() {
                th.slots[*s as usize] = Some(n);
            }
        }
        Op::Copy(a, b) => {
            if ensure(th, *a) && a != b {
                let s = th.slots[*a as usize].as_ref().unwrap();
                let n = Slot { root: Box::new((*s.root).clone()), doc: s.doc.clone(), past: s.past.clone() };
                if !call("contents_eq", || n.root.contents_eq(&s.root)) {
                    viol("compare", format!("a copy of document {} is reported to differ from it", a));
                }
                th.slots[*b as usize] = Some(n);
            }
        }
        Op::Edit(s, seed, n) => {
            if ensure(th, *s) {
                let slot = th.slots[*s as usize].as_mut().unwrap();
                let mut e = Editor::new(c().s, *seed, c().plan.flags.big, c().plan.flags.lists_only, c().plan.flags.walks);
                let r = call("editing", || e.run(&mut slot.root, &mut slot.doc, *n as usize));
                quiet(|| {
                    for l in &e.log {
                        rt().logf(|| format!("  edit doc {}: {}", s, l));
                    }
                    note_n("edits", *n as u64);
                });
                if let Err(m) = r {
                    viol("edit", m);
                }
                if let Err(m) = quiet(|| compare(c().s, &slot.doc, &slot.root)) {
                    viol("edit", format!("after editing: {}", m));
                }
            }
        }
        Op::Cmp(a, b) => {
            if ensure(th, *a) && ensure(th, *b) {
                let (p, q) = (th.slots[*a as usize].as_ref().unwrap(), th.slots[*b as usize].as_ref().unwrap());
                let eq = call("contents_eq", || p.root.contents_eq(&q.root));
                quiet(|| {
                    note("comparisons");
                    let same = dump_model(c().s, &p.doc) == dump_model(c().s, &q.doc);
                    if eq && !same {
                        viol("compare", format!("documents {} and {} are reported to have the same contents but differ", a, b));
                    }
                });
            }
        }
        Op::Save(d, s, t) => save(th, *d, *s, *t),
        Op::SaveNb(d, s, t) => save_nb(th, *d, *s, *t, false, 0),
        Op::SaveVac(d, s, t) => save_nb(th, *d, *s, *t, true, 0),
        Op::SaveNbThen(d, s, t, k) => {
            c().par = true;
            save_nb(th, *d, *s, *t, false, k + 1)
        }
        Op::Drain => drain(),
        Op::List(d) => {
            list(*d);
        }
        Op::Load(d, w, s) => load(th, *d, Pick::Which(*w), Some(*s)),
        Op::Newest(d, s) => load(th, *d, Pick::Newest, Some(*s)),
        Op::LoadAll(d) => load(th, *d, Pick::All, None),
        Op::LoadLate(d, s) => load_late(th, *d, *s),
        // removing while a save is running is up to the caller to avoid
        Op::RemoveOld(..) | Op::Remover(..) | Op::RemoveDir(..) if busy() => note("removals_skipped"),
        Op::RemoveOld(d, k) => remove_old(*d, *k as usize),
        Op::Remover(d, s) => remover(*d, *s),
        Op::RemoveDir(d, f, s) => remove_dir(*d, *f, *s),
        Op::FSave(d, s, n, o) => fsave(th, *d, *s, *n, *o),
        Op::FSaveNb(d, s, n, o) => fsave_nb(th, *d, *s, *n, *o),
        Op::FList(d) => {
            flist(*d);
        }
        Op::FLoad(d, w, s) => fload(th, *d, Some(*w), Some(*s)),
        Op::FLoadAll(d) => fload(th, *d, None, None),
        Op::FRemove(d, w) => fremove(*d, *w),
        Op::Par(ts) => par(th, ts),
        Op::Clock(ms) => quiet(|| {
            rt().rt_off += ms * 1_000_000;
            c().w.clock_jumped = true;
            c().w.cnt.add("fault.clock_jump", 1);
        }),
        Op::Sleep(ms) => sleep_sim(*ms as u64 * 1_000_000),
        Op::Quota(n) => quiet(|| {
            let r = rt();
            r.vfs.quota = r.vfs.used() + *n as u64;
            c().w.cnt.add("fault.disk_quota", 1);
        }),
        Op::NoQuota => quiet(|| rt().vfs.quota = u64::MAX),
        Op::Damage(s) => quiet(|| damage(*s, false)),
        Op::Repair => quiet(|| repair()),
        Op::Foreign(s) => quiet(|| foreign(*s)),
        Op::EditSrc(v) => {
            for d in 0..NDIRS {
                his_info(d);
                file_info(d);
            }
            quiet(|| {
                let now = rt().realtime();
                let s = &c().plan.schemas[*v as usize];
                put_source(&mut rt().vfs, s, now);
                c().w.cnt.add("fault.source_edited", 1);
                c().w.src_edited = Some(*v);
            });
            if c().plan.incs[c().inc].arc {
                make_archive("/sim/arc/src.arc");
            }
        }
        Op::Forget(d) => {
            if let Some(h) = his_info(*d) {
                call("set_current_root_obj_info", || set_current_root_obj_info(h, None));
            }
        }
        Op::Src(k, s) => src(*k, *s),
        Op::Base(d, s, w) => {
            if let (Some(h), true) = (his_info(*d), ensure(th, *s)) {
                let slot = th.slots[*s as usize].as_ref().unwrap();
                let past: Vec<&FileNameProps> = slot.past.iter().filter(|p| p.0 == *d && p.1 == c().ver).map(|p| &p.2).collect();
                if !past.is_empty() {
                    let p = past[*w as usize % past.len()];
                    say(|| format!("the next save of document {} is to derive from {}", s, p.calc_filename()));
                    note("bases_named");
                    call("set_current_root_obj_info", || set_current_root_obj_info(h, Some(CurrentRootObjInfo::new(slot.root.id(), p.clone()))));
                }
            }
        }
        Op::Reserved(d, s, w, remove) => reserved(th, *d, *s, *w, *remove),
        Op::Again(d, k) => again(*d, *k),
        Op::Switch(v) => switch(th, *v),
        Op::Arc(d, s) => archive_dir(*d, *s),
        Op::Repeat(ops) => repeat(th, ops),
    }
}
fn note_n(k: &str, n: u64) {
    quiet(|| c().w.cnt.add(k, n));
}

fn again(d: u8, k: u8) {
    let f0 = fired();
    let o = c().plan.opts_of(c().ver);
    if k == 3 {
        if let Some(h) = file_info(d) {
            match call("SaveDirInfo::create", || SaveDirInfo::create(fdir(d), cur_src())) {
                Ok(i) if i.hash() != h.hash() => viol("identity", "the directory asked for again has another source".into()),
                Ok(_) => {}
                Err(e) => err("SaveDirInfo::create", f0, e),
            }
        }
        return;
    }
    let h = match his_info(d) {
        Some(h) => h,
        None => return,
    };
    let f0 = fired();
    let r = call("HistoryInfo::create", || match k {
        0 if o.default => HistoryInfo::create(hdir(d), cur_src(), ()),
        0 => HistoryInfo::create(hdir(d), cur_src(), options(o)),
        1 => HistoryInfo::create(hdir(d), cur_src(), HistoryOptionsBuilder::new().max_phase(o.max_phase as usize + 1).build().unwrap()),
        _ => HistoryInfo::create(hdir(d), CurrentSrc::from_archive_file("/sim/arc/none.arc"), options(o)),
    });
    // other options or sources are refused, or the directory stays as it is
    match r {
        Ok(i) if i.hash() != h.hash() => viol("identity", "the directory asked for again has another source".into()),
        Ok(_) => {}
        Err(e) => {
            if k == 0 {
                err("HistoryInfo::create", f0, e)
            }
        }
    }
}
/// another source version without a restart; nothing is being saved or loaded
fn switch(th: &mut Th, v: u32) {
    if busy() {
        drain();
    }
    quiet(|| {
        let x = c();
        let now = rt().realtime();
        x.ver = v;
        x.s = &x.plan.schemas[v as usize];
        put_source(&mut rt().vfs, x.s, now);
        x.switched = Some(v);
        x.w.src_edited = None;
        th.slots.iter_mut().for_each(|s| *s = None);
    });
    make_archive(&format!("/sim/arc/v{}.arc", v));
    note("source_switches");
    for d in 0..NDIRS {
        let f0 = fired();
        if c().h[d as usize].is_some() {
            let p = c().plan.opts_of(v);
            let o = if p.default { HistoryOptions::new() } else { options(p) };
            match call("init_dochy_cache_us", || unsafe { init_dochy_cache_us(std::path::Path::new(&hdir(d)), cur_src(), &o) }) {
                Ok(h) => {
                    let h: &'static HistoryInfo = Box::leak(Box::new(h));
                    check_source("init_dochy_cache_us", h.hash(), &h.clone_src_root());
                    c().h[d as usize] = Some(h);
                }
                Err(e) => err("init_dochy_cache_us", f0, e),
            }
        }
        if c().f[d as usize].is_some() {
            match call("force_update_and_get_info_us", || unsafe { force_update_and_get_info_us(fdir(d), cur_src()) }) {
                Ok(h) => {
                    let h: &'static SaveDirInfo = Box::leak(Box::new(h));
                    check_source("force_update_and_get_info_us", h.hash(), &h.clone_src_root());
                    c().f[d as usize] = Some(h);
                }
                Err(e) => err("force_update_and_get_info_us", f0, e),
            }
        }
    }
}
/// the files the library keeps in each directory of a source
const LASTING: [&str; 2] = [reserved_filename::ARCHIVE_DEFAULT_NAME, reserved_filename::CREATED_TIME_FILE_NAME];
/// the library's own files in a directory of document files cannot be saved over or removed
fn reserved(th: &mut Th, d: u8, s: u8, w: u32, remove: bool) {
    let h = match file_info(d) {
        Some(h) => h,
        None => return,
    };
    if !ensure(th, s) {
        return;
    }
    let slot = th.slots[s as usize].as_ref().unwrap();
    let dir = hash_dir_path(fdir(d), h.hash());
    let own: Vec<String> = quiet(|| rt().vfs.list_dir(dir.to_str().unwrap()).into_iter().filter(|n| LASTING.contains(&n.as_str())).collect());
    if own.is_empty() {
        return;
    }
    let n = &own[w as usize % own.len()];
    note("reserved_names");
    let ok = if remove {
        call("remove_dochy_file", || remove_dochy_file(fdir(d), h.hash(), n).is_ok())
    } else {
        call("save_dochy_file", || save_dochy_file(h, n, &slot.root, true).is_ok())
    };
    if ok {
        viol("reserved", format!("the library's own file {:?} was {} like a document file", n, if remove { "removed" } else { "saved over" }));
    }
}

// ---------------------------------------------------------------- history
fn hpath(d: u8, ver: u32, file: &str) -> String {
    hash_dir_path(hdir(d), c().w.hashes[ver as usize]).join(file).to_str().unwrap().to_string()
}
fn tag_of(t: u8) -> Option<String> {
    TAGS[t as usize % TAGS.len()].map(|s| s.to_string())
}
fn record(dir: u8, ver: u32, props: &FileNameProps, tag: &Option<String>, doc: Doc, start: u64, fifo: u64) {
    quiet(|| {
        let x = c();
        let file = props.calc_filename();
        rt().logf(|| format!("saved {} in {}", file, hdir(dir)));
        rt().event(0x91, fnv(1, file.as_bytes()), dir as u64);
        if props.tag() != tag.as_deref() {
            viol("tag", format!("saved with tag {:?} but the returned description has {:?}", tag, props.tag()));
        }
        if rt().vfs.read_file(&hpath(dir, ver, &file)).is_none() {
            viol("lost", format!("the save reported success but {} does not exist", hpath(dir, ver, &file)));
        }
        for e in x.w.his.iter_mut().filter(|e| e.dir == dir && e.ver == ver && e.file == file) {
            match e.st {
                HSt::Certain => viol("overwritten", format!("a save replaced the stored version {}", file)),
                HSt::Unsure | HSt::Broken => e.st = HSt::Removed,
                HSt::Removed => {}
            }
        }
        x.w.tick += 1;
        let end = x.w.tick;
        x.w.his.push(HEnt { dir, ver, file, tag: tag.clone(), doc, start, end, fifo, st: HSt::Certain });
        x.w.cnt.add("history_saves", 1);
    })
}
fn save(th: &mut Th, d: u8, s: u8, t: u8) {
    let h = match his_info(d) {
        Some(h) => h,
        None => return,
    };
    if !ensure(th, s) {
        return;
    }
    let slot = th.slots[s as usize].as_ref().unwrap();
    let tag = tag_of(t);
    let f0 = fired();
    let start = tick();
    let ver = c().ver;
    let m = quiet(|| Maybe { dir: d, ver, tag: tag.clone(), doc: slot.doc.clone(), start, end: 0, fifo: 0 });
    quiet(|| c().inflight.insert(th.id, Inflight::His(m)));
    let r = call("save_history_file", || save_history_file(h, tag.clone(), &slot.root));
    let m = quiet(|| c().inflight.remove(&th.id));
    match r {
        Ok(p) => {
            record(d, ver, &p, &tag, quiet(|| slot.doc.clone()), start, 0);
            if c().plan.flags.count {
                quiet(|| check_place(d, s, &p));
            }
            let past = &mut th.slots[s as usize].as_mut().unwrap().past;
            quiet(|| past.push((d, ver, p.clone())));
        }
        Err(e) => {
            err("save_history_file", f0, e);
            if let Some(Inflight::His(mut m)) = m {
                m.end = tick();
                quiet(|| c().w.maybe.push(m));
            }
        }
    }
}
/// Is the new version in a phase the options allow?
fn check_place(d: u8, s: u8, p: &FileNameProps) {
    let x = c();
    let o = x.plan.opts_of(x.ver);
    let (max_phase, cum, _) = o.layout();
    let (upd0, nth) = if o.default { (true, Some(1)) } else { (o.upd0, o.nth) };
    let name = p.calc_filename();
    if p.order().len() > max_phase as usize + 1 {
        viol("place", format!("{} is behind the last phase {}", name, max_phase));
    }
    if x.cont[d as usize] == Some(s) && !upd0 && p.order().len() == 1 {
        viol("place", format!("{} continues the saved document, but is in phase 0, which is not to be made again", name));
    }
    x.cont[d as usize] = Some(s);
    let nth = match nth {
        Some(n) if cum && p.order().len() == max_phase as usize + 1 && p.order().last() > Some(&0) => n.max(1) as usize,
        _ => return,
    };
    // the versions it is built on, from the nearest one on
    let all: Vec<FileNameProps> = x.w.his.iter().filter(|e| e.dir == d && e.ver == x.ver && e.st != HSt::Removed).filter_map(|e| FileNameProps::from(&e.file)).collect();
    let size = |f: &FileNameProps| -> Option<u64> {
        let b = rt().vfs.read_file(&hpath(d, x.ver, &f.calc_filename()))?;
        let mut r = &b[..];
        dochy_compaction::decode(&mut r).ok()?;
        Some(r.len() as u64)
    };
    let (mut sizes, mut sum, mut cur) = (vec![], 0, p.clone());
    while cur.order().len() > 1 {
        let mut order = cur.order().to_vec();
        let last = order.pop().unwrap();
        let sibling = last > 0 && cur.order().len() == max_phase as usize + 1;
        if sibling {
            order.push(last - 1);
        }
        let (f, n) = match all.iter().find(|f| f.control() == cur.prev_ctl() && f.order() == &order[..]).and_then(|f| Some((f, size(f)?))) {
            Some(f) => f,
            None => return,
        };
        // of those in the last phase, only the latest counts as an ancestor
        if !sibling || sum == 0 {
            sizes.push(n);
        }
        if sibling {
            sum += n;
        }
        cur = f.clone();
    }
    sizes.sort();
    sizes.reverse();
    x.w.cnt.add("size_limits", 1);
    if let Some(n) = sizes.get(nth - 1) {
        if sum >= *n {
            viol("place", format!("{} was added to the last phase, whose {} bytes are not less than the {} bytes of the largest version number {} it is built on", name, sum, n, nth));
        }
    }
}
/// History files on disk which are not known to be finished saves.
fn extra_files(d: u8) -> usize {
    let v = &rt().vfs;
    let x = c();
    let mut n = 0;
    for h in v.list_dir(&hdir(d)) {
        for f in v.list_dir(&format!("{}/{}", hdir(d), h)) {
            if f.ends_with(".his") && !x.w.foreign.contains(&f) && !x.w.his.iter().any(|e| e.dir == d && e.st == HSt::Certain && e.file == f && hpath(d, e.ver, &f).contains(&h)) {
                n += 1;
            }
        }
    }
    n
}
fn save_nb(th: &mut Th, d: u8, s: u8, t: u8, vac: bool, then: u8) {
    let h = match his_info(d) {
        Some(h) => h,
        None => return,
    };
    if !ensure(th, s) {
        return;
    }
    let slot = th.slots[s as usize].as_ref().unwrap();
    let tag = tag_of(t);
    let start = tick();
    // what must the answer of save-if-idle be?
    let idle = quiet(|| {
        let x = c();
        !x.par && x.quiesced && x.nbs.iter().all(|n| n.file || n.dir != d || n.called > 0)
    });
    let id = quiet(|| {
        let x = c();
        x.nbs.push(Nb { file: false, dir: d, ver: x.ver, tag: tag.clone(), doc: slot.doc.clone(), start, called: 0, fired0: rt().fired, name: String::new(), overwrite: false, exists: false, slot: s });
        x.nbs.len() - 1
    });
    let copy = quiet(|| if then > 0 {
        c().chains += 1;
        Some(Slot { root: Box::new((*slot.root).clone()), doc: slot.doc.clone(), past: vec![] })
    } else {
        None
    });
    let cb = move |r: dochy_fs::FsResult<FileNameProps>| {
        his_done(id, r.map_err(|e| e.to_string()));
        if let Some(s) = copy {
            chain(id, d, t, then, s);
        }
    };
    if vac {
        // while the request is being decided it must not count as pending
        let acc = call("save_history_file_nb_if_vacant", || save_history_file_nb_if_vacant(h, tag.clone(), &slot.root, cb));
        say(|| format!("save-if-idle #{} -> {}", id, acc));
        ev(3, if acc { "accepted" } else { "refused" });
        note(if acc { "vacant_accepted" } else { "vacant_refused" });
        if idle && !acc {
            viol("vacant", "a save-if-idle request was refused although nothing is pending".into());
        }
        if acc {
            quiet(|| {
                // a save still unfinished now was unfinished when the request was decided
                let x = c();
                let pend: Vec<&Nb> = x.nbs[..id].iter().filter(|n| !n.file && n.dir == d && n.called == 0).collect();
                let clean = !x.par && x.w.maybe.is_empty() && x.inflight.is_empty() && pend.iter().all(|n| n.fired0 == rt().fired);
                if clean && extra_files(d) < pend.len() {
                    viol("vacant", "a save-if-idle request was accepted although an accepted save has not finished".into());
                }
            });
        }
        if acc {
            c().quiesced = false;
        } else {
            quiet(|| {
                let n = &mut c().nbs[id];
                if n.called > 0 {
                    viol("callback", "a refused save-if-idle request called back".into());
                }
                n.called = u32::MAX;
            });
        }
    } else {
        call("save_history_file_nb", || save_history_file_nb(h, tag.clone(), &slot.root, cb));
        c().quiesced = false;
        note("nb_saves");
    }
}
/// a callback that uses the library itself
fn chain(id: usize, d: u8, t: u8, then: u8, s: Slot) {
    let mut th = Th { slots: vec![Some(s), None, None, None], id: 1000 + id as u64 };
    note("callbacks_using_the_library");
    match then {
        1 => {
            list(d);
        }
        2 => load(&mut th, d, Pick::Newest, Some(1)),
        3 => save(&mut th, d, 0, t),
        4 => save_nb(&mut th, d, 0, t, false, 0),
        _ => save_nb(&mut th, d, 0, t, true, 0),
    }
    c().chains -= 1;
}
/// callback of a non-blocking history save, on the library's thread
fn his_done(id: usize, r: Result<FileNameProps, String>) {
    quiet(|| {
        let x = c();
        let n = &mut x.nbs[id];
        if n.called == u32::MAX {
            viol("callback", "a refused save-if-idle request called back".into());
        }
        n.called += 1;
        if n.called > 1 {
            viol("callback", "the callback of a non-blocking save was called twice".into());
        }
        let n = n.clone();
        rt().logf(|| format!("callback #{}: {}", id, match &r { Ok(p) => p.calc_filename(), Err(e) => format!("error {}", e) }));
        if let Some(e) = (0..id).find(|i| !x.nbs[*i].file && x.nbs[*i].dir == n.dir && x.nbs[*i].called == 0) {
            if !x.par {
                viol("fifo", format!("non-blocking save #{} finished before the earlier #{} of the same directory", id, e));
            }
        }
        match r {
            Ok(p) => {
                record(n.dir, n.ver, &p, &n.tag, n.doc, n.start, if x.par { 0 } else { id as u64 + 1 });
                if x.plan.flags.count {
                    check_place(n.dir, n.slot, &p);
                }
            }
            Err(e) => {
                if rt().fired == n.fired0 && x.w.src_edited.is_none() {
                    viol("error", format!("a non-blocking save failed although nothing went wrong: {}", clip(&e)));
                }
                x.w.cnt.add("reported_errors", 1);
                x.w.tick += 1;
                x.w.maybe.push(Maybe { dir: n.dir, ver: n.ver, tag: n.tag, doc: n.doc, start: n.start, end: x.w.tick, fifo: id as u64 + 1 });
            }
        }
    })
}
const REPS: usize = 8;
/// Repeats operations and looks at what is left over: after a few rounds to get
/// started there must not be more of it after each further round.
fn repeat(th: &mut Th, ops: &[Op]) {
    let mut seen = vec![];
    for _ in 0..5 {
        for _ in 0..REPS {
            for o in ops {
                exec(th, o);
            }
        }
        come_to_rest();
        nothing_open();
        quiet(|| {
            // threads that have ended give back their memory on their own
            unsafe { libc::usleep(1000) };
            let running = rt().thr.iter().filter(|t| t.st != St::Done).count();
            let (blocks, bytes) = crate::alloc::in_use();
            rt().logf(|| format!("left over: {} threads, {} blocks, {} bytes", running, blocks, bytes));
            seen.push([running as isize, blocks, bytes]);
            c().w.cnt.add("repetitions", REPS as u64);
        });
    }
    quiet(|| {
        let n = REPS as isize;
        for (k, what, least) in [(0, "threads", 1), (1, "blocks of memory", n), (2, "bytes of memory", 16 * n)] {
            if seen[1..].windows(2).all(|w| w[1][k] - w[0][k] >= least) {
                viol("left", format!("each repetition leaves more {} in use: {:?}", what, seen.iter().map(|s| s[k]).collect::<Vec<_>>()));
            }
        }
    });
}
fn nothing_open() {
    quiet(|| {
        let t = crate::shim::tab();
        if !t.fds.is_empty() || !t.dirs.is_empty() {
            let p: Vec<String> = t.fds.values().map(|f| f.path.clone()).collect();
            viol("left", format!("nothing is going on, but {} files and {} directories are open: {:?}", t.fds.len(), t.dirs.len(), p));
        }
    })
}
/// A non-blocking save has not called back yet.
fn busy() -> bool {
    quiet(|| c().nbs.iter().any(|n| n.called == 0) || c().chains > 0)
}
fn come_to_rest() {
    wait_for_callbacks();
    sleep_sim(120_000_000_000);
    c().quiesced = true;
}
fn wait_for_callbacks() {
    let mut i = 0;
    loop {
        let pend = quiet(|| c().nbs.iter().position(|n| n.called == 0));
        if pend.is_none() && c().chains == 0 {
            break;
        }
        sleep_sim(1_000_000 << (i / 50).min(12));
        i += 1;
        if i > 1500 {
            match pend {
                Some(k) => viol("callback", format!("non-blocking save #{} never called back", k)),
                None => viol("callback", "a call made in the callback of a non-blocking save never returned".into()),
            }
        }
    }
}
fn drain() {
    wait_for_callbacks();
    // let the saving threads come to rest
    quiet(|| rt().armed.clear());
    if !c().quiesced {
        sleep_sim(120_000_000_000);
        c().quiesced = true;
        for d in 0..NDIRS as usize {
            if let Some(h) = c().h[d] {
                let q = h.peekable().queued();
                if q != 0 {
                    viol("vacant", format!("directory {} is still reported busy ({}) after all saves finished", d, q));
                }
            }
        }
    }
    c().par = false;
    if c().plan.flags.left {
        nothing_open();
    }
}

struct Listed {
    hs: FileHistories,
    /// (version, file name) in listing order; None for an unknown source
    names: Vec<(Option<u32>, String)>,
    faulted: bool,
}
fn find_ent(d: u8, ver: u32, file: &str) -> Option<usize> {
    c().w.his.iter().rposition(|e| e.dir == d && e.ver == ver && e.file == file && e.st != HSt::Removed)
}
/// A version was saved under options that place files differently.
fn moved(v: u32) -> bool {
    let (a, b) = (c().plan.opts_of(v).layout(), c().plan.opts_of(c().ver).layout());
    (a.0, a.1) != (b.0, b.1)
}
/// The directories of the sources, as they are given by the functions for them.
fn check_dirs(d: u8, hs: &FileHistories) {
    let f0 = fired();
    let (a, b) = match call("get_hash_times", || dochy_fs::common::get_hash_times(hdir(d)).and_then(|a| Ok((a, dochy_fs::common::hash_dir_paths(hdir(d))?.collect::<Vec<_>>())))) {
        Ok(x) => x,
        Err(e) => return err("get_hash_times", f0, e),
    };
    if fired() != f0 {
        return;
    }
    quiet(|| {
        let times: Vec<u128> = a.iter().map(|x| x.0).collect();
        let listed: Vec<u128> = hs.iter().map(|x| x.0).collect();
        if !listed.iter().all(|h| times.contains(h)) || a.windows(2).any(|w| w[0].1 > w[1].1) {
            viol("listing", format!("get_hash_times gives {:x?}, list_histories has {:x?}", a, listed));
        }
        for (h, p) in times.iter().zip(&b) {
            let name = p.file_name().unwrap();
            if dochy_fs::common::hash::folder_name_to_hash(name) != Some(*h) || dochy_fs::common::hash::hash_to_folder_name(*h) != name || *p != hash_dir_path(hdir(d), *h) || rt().vfs.lookup(p.to_str().unwrap()).is_none() {
                viol("listing", format!("hash_dir_paths gives {:?} for {:x}", p, h));
            }
        }
        if b.len() != a.len() {
            viol("listing", format!("hash_dir_paths gives {} directories of {}", b.len(), a.len()));
        }
    })
}
/// Lists a history directory and checks the listing against the journal.
fn list(d: u8) -> Option<Listed> {
    let h = his_info(d)?;
    let f0 = fired();
    let start = tick();
    let hs = match call("list_histories", || list_histories(h)) {
        Ok(l) => l,
        Err(e) => {
            err("list_histories", f0, e);
            return None;
        }
    };
    note("listings");
    let faulted = fired() != f0;
    let names: Vec<(Option<u32>, String)> = call("list_files", || hs.list_files().iter().map(|f| (ver_of(f.hash()), f.props().calc_filename())).collect());
    let tags: Vec<Option<String>> = hs.list_files().iter().map(|f| f.props().tag().map(|t| t.to_string())).collect();
    say(|| format!("listing of {}: {:?}", hdir(d), names));
    for (_, n) in &names {
        ev(4, n);
    }
    let busy = |x: &Ctx| x.inflight.values().any(|i| matches!(i, Inflight::His(m) if m.dir == d)) || x.nbs.iter().any(|n| !n.file && n.dir == d && n.called == 0);
    // no duplicates
    quiet(|| {
        let mut seen = BTreeSet::new();
        for n in &names {
            if !seen.insert(n.clone()) {
                viol("listing", format!("{} is listed twice", n.1));
            }
        }
        let x = c();
        let damaged = !x.w.stash.is_empty();
        if !faulted && !damaged {
            for e in x.w.his.iter().filter(|e| e.dir == d && e.st == HSt::Certain && e.end < start) {
                if !names.iter().any(|n| n.0 == Some(e.ver) && n.1 == e.file) {
                    viol(if moved(e.ver) { "options" } else { "listing" }, format!("the saved version {} (source version {}) is not listed", e.file, e.ver));
                }
            }
            // removed for good: the name may be given again
            for e in x.w.his.iter_mut().filter(|e| e.dir == d && matches!(e.st, HSt::Unsure | HSt::Broken) && e.end < start) {
                if !names.iter().any(|n| n.0 == Some(e.ver) && n.1 == e.file) {
                    e.st = HSt::Removed;
                }
            }
        }
    });
    if !faulted && !busy(c()) && !c().par && tick() % 4 == 0 {
        check_dirs(d, &hs);
    }
    // files nobody has reported as saved
    for (i, (v, n)) in names.iter().enumerate() {
        let v = match v {
            Some(v) => *v,
            None => {
                if !busy(c()) {
                    viol("listing", format!("{} of an unknown source is listed", n));
                }
                continue;
            }
        };
        match find_ent(d, v, n) {
            Some(k) => {
                if tags[i] != c().w.his[k].tag && c().w.stash.is_empty() {
                    viol("tag", format!("{} was saved with tag {:?} but is listed with {:?}", n, c().w.his[k].tag, tags[i]));
                }
            }
            None => {
                if busy(c()) {
                    continue;
                }
                let removed = c().w.his.iter().any(|e| e.dir == d && e.ver == v && &e.file == n);
                let cands: Vec<usize> = quiet(|| (0..c().w.maybe.len()).filter(|k| { let m = &c().w.maybe[*k]; m.dir == d && m.ver == v && m.tag == tags[i] }).collect());
                if cands.is_empty() {
                    if removed {
                        viol("listing", format!("the removed version {} is listed", n));
                    }
                    viol("listing", format!("{} is listed but no save of it was reported or cut off", n));
                }
                // an interrupted save: complete or not shown at all
                let f1 = fired();
                let fs = hs.list_files();
                let r = call("load_history_file_data", || load_history_file_data(h, &fs[i], true));
                match r {
                    Err(e) => {
                        if fired() == f1 && c().w.stash.is_empty() {
                            viol("half", format!("{} is listed after an interrupted save but cannot be loaded: {}", n, clip(&e.to_string())));
                        }
                    }
                    Ok(root) => quiet(|| {
                        let mut first = String::new();
                        for k in cands {
                            let m = c().w.maybe[k].clone();
                            match matches_doc(&m.doc, v, &root, &overtaken(d, v, &m.doc, m.start, m.end)) {
                                Ok(_) => {
                                    c().w.maybe.remove(k);
                                    c().w.his.push(HEnt { dir: d, ver: v, file: n.clone(), tag: m.tag, doc: m.doc, start: m.start, end: m.end, fifo: m.fifo, st: HSt::Certain });
                                    c().w.cnt.add("adopted_interrupted_saves", 1);
                                    return;
                                }
                                Err(e) => first = e,
                            }
                        }
                        viol("half", format!("{} is listed after an interrupted save but has contents nobody saved: {}", n, first));
                    }),
                }
            }
        }
    }
    if c().plan.flags.order && !c().par {
        quiet(|| check_order(d, &names));
    }
    Some(Listed { hs, names, faulted })
}
fn check_order(d: u8, names: &[(Option<u32>, String)]) {
    let x = c();
    let ents: Vec<&HEnt> = names.iter().filter_map(|(v, n)| v.and_then(|v| find_ent(d, v, n)).map(|k| &x.w.his[k])).collect();
    for i in 0..ents.len() {
        for j in i + 1..ents.len() {
            let (a, b) = (ents[i], ents[j]);
            if a.ver != b.ver {
                continue;
            }
            if b.end < a.start {
                viol("order", format!("{} is listed before {} although it was saved after it", a.file, b.file));
            }
        }
    }
}
fn matches_doc(doc: &Doc, ver: u32, root: &RootObject, loose: &[String]) -> Result<Doc, String> {
    let x = c();
    let s = &x.plan.schemas[ver as usize];
    let mut m = doc.clone();
    for k in loose {
        if let Some(p) = s.param(k) {
            if x.s.param(k).is_some() && modified(root, k) {
                m.set.insert(k.clone(), p.def.clone());
            }
        }
    }
    if ver != x.ver {
        m = convert(&m, s, x.s);
    }
    compare(x.s, &m, root).map(|_| m)
}
/// A save that was overtaken by a newer save of the same document may store the defaults of
/// variables which only the newer state modified as if they had been set.
fn overtaken(d: u8, ver: u32, doc: &Doc, start: u64, end: u64) -> Vec<String> {
    let mut r = vec![];
    for e in &c().w.his {
        if e.dir == d && e.ver == ver && e.start > start && (end == 0 || e.end < end) {
            r.extend(lost_keys(doc, &e.doc));
        }
    }
    r
}
enum Pick {
    Which(u32),
    Newest,
    All,
}
fn load(th: &mut Th, d: u8, pick: Pick, slot: Option<u8>) {
    if let Some(l) = list(d) {
        load_listed(th, d, &l, pick, slot)
    }
}
fn load_late(th: &mut Th, d: u8, seed: u64) {
    if let Some(l) = list(d) {
        quiet(|| damage(seed, true));
        load_listed(th, d, &l, Pick::All, None);
        quiet(repair);
    }
}
fn load_listed(th: &mut Th, d: u8, l: &Listed, pick: Pick, slot: Option<u8>) {
    let h = match his_info(d) {
        Some(h) => h,
        None => return,
    };
    let files = l.hs.list_files();
    let idx: Vec<usize> = match pick {
        // of a long history, one in some and the latest
        Pick::All => {
            let n = files.len();
            (0..n).filter(|i| n < 100 || i % (n / 40) == 0 || i + 6 > n).collect()
        }
        Pick::Which(w) => {
            if files.is_empty() {
                return;
            }
            vec![w as usize % files.len()]
        }
        Pick::Newest => {
            let n = call("get_newest_file_data", || l.hs.get_newest_file_data().map(|f| (f.hash(), f.props().calc_filename())));
            match n {
                None => {
                    if !files.is_empty() && !l.faulted {
                        viol("newest", "no newest version is reported although versions are listed".into());
                    }
                    return;
                }
                Some((hash, name)) => {
                    let k = match files.iter().position(|f| f.hash() == hash && f.props().calc_filename() == name) {
                        Some(k) => k,
                        None => viol("newest", format!("the newest version {} is not listed", name)),
                    };
                    if c().plan.flags.order && !l.faulted && !c().par {
                        quiet(|| check_newest(d, &l.names, k));
                        quiet(|| check_paths(d, l));
                    }
                    vec![k]
                }
            }
        }
    };
    for i in idx {
        let f = &files[i];
        let (v, name) = match &l.names[i] {
            (Some(v), n) => (*v, n.clone()),
            _ => continue,
        };
        let k = match find_ent(d, v, &name) {
            Some(k) => k,
            None => continue, // being saved right now, or could not be read because of a fault
        };
        let st = c().w.his[k].st;
        let must = st != HSt::Broken && !touched_by_damage(&c().w.his[k]);
        let f0 = fired();
        let solo = !c().par && c().nbs.iter().all(|n| n.called > 0);
        if solo {
            quiet(|| rt().opened.clear());
        }
        let validation = (i + th.id as usize) % 3 != 0;
        let r = call("load_history_file_data", || match (i + k) % 5 {
            0 if v == c().ver => load_history_file(h, f.props(), f.history(), validation),
            1 if v == c().ver && !c().plan.flags.count => {
                let o = h.options();
                FileHistory::create(hdir(d), f.hash(), o.max_phase(), o.is_cumulative()).and_then(|a| load_history_file(h, f.props(), &a, validation))
            }
            _ => load_history_file_data(h, f, validation),
        });
        note("history_loads");
        match r {
            Ok(root) => {
                let m = quiet(|| match {
                    let e = &c().w.his[k];
                    matches_doc(&e.doc, v, &root, &overtaken(d, v, &e.doc, e.start, e.end))
                } {
                    Ok(m) => m,
                    Err(e) => viol(if moved(v) { "options" } else { "contents" }, format!("{} (source version {}) loads with wrong contents: {}", name, v, e)),
                });
                if solo && c().plan.flags.count {
                    quiet(|| check_count(v, &name));
                }
                // the next save continues what was loaded last
                c().cont[d as usize] = None;
                if let Some(s) = slot {
                    for k in c().cont.iter_mut().filter(|k| **k == Some(s)) {
                        *k = None;
                    }
                    if v == c().ver && solo {
                        c().cont[d as usize] = Some(s);
                    }
                    let past = if v == c().ver { vec![(d, v, f.props().clone())] } else { vec![] };
                    th.slots[s as usize] = Some(Slot { root: Box::new(root), doc: m, past });
                }
            }
            Err(e) => {
                let e = e.to_string();
                say(|| format!("loading {} failed: {}", name, e));
                if must && fired() == f0 {
                    viol(if moved(v) { "options" } else { "load" }, format!("the saved version {} (source version {}) cannot be loaded: {}", name, v, clip(&e)));
                }
                note("reported_errors");
            }
        }
    }
}
/// the paths given for the versions
fn check_paths(d: u8, l: &Listed) {
    for f in l.hs.list_files() {
        let p = f.calc_path(hdir(d));
        if c().w.stash.is_empty() && rt().vfs.read_file(p.to_str().unwrap()).is_none() {
            viol("path", format!("{} is listed with the path {:?}, which does not exist", f.props().calc_filename(), p));
        }
        if FileNameProps::from(&f.props().calc_filename()).as_ref() != Some(f.props()) {
            viol("path", format!("the description of {} is not the one its name gives", f.props().calc_filename()));
        }
    }
    for (hash, his) in l.hs.iter() {
        let dir = hash_dir_path(hdir(d), *hash);
        let last = his.list_files().last().map(|p| dir.join(p.calc_filename()));
        if his.newest_file_path(&dir) != last {
            viol("newest", format!("{:?} is reported as the newest file of {:?}, but {:?} is listed last", his.newest_file_path(&dir), dir, last));
        }
    }
}
fn check_newest(d: u8, names: &[(Option<u32>, String)], k: usize) {
    let x = c();
    let get = |i: usize| names[i].0.and_then(|v| find_ent(d, v, &names[i].1)).map(|k| &x.w.his[k]);
    let n = match get(k) {
        Some(n) => n,
        None => return,
    };
    for i in 0..names.len() {
        if let Some(e) = get(i) {
            if e.start > n.end && (e.ver == n.ver || !x.w.clock_jumped) {
                viol("newest", format!("{} is reported as newest although {} was saved after it", n.file, e.file));
            }
        }
    }
}
fn check_count(v: u32, name: &str) {
    let (mp, cum, count) = c().plan.opts_of(v).layout();
    let max = if cum {
        match count {
            Some(n) => mp + n,
            None => return,
        }
    } else {
        mp + 1
    };
    let files: BTreeSet<&String> = rt().opened.iter().filter(|p| p.ends_with(".his")).collect();
    c().w.cnt.add("counted_loads", 1);
    let k = format!("load_files.{}", files.len());
    c().w.cnt.add(&k, 1);
    if files.len() > max as usize {
        viol("count", format!("loading {} read {} version files; the options allow {}", name, files.len(), max));
    }
}

// ---------------------------------------------------------------- removal
fn set_unsure(d: u8, names: &[(Option<u32>, String)], keep: &BTreeSet<(u32, String)>, st: HSt) {
    for (v, n) in names {
        if let Some(v) = v {
            if keep.contains(&(*v, n.clone())) {
                continue;
            }
            if let Some(k) = find_ent(d, *v, n) {
                c().w.his[k].st = st;
            }
        }
    }
}
/// versions an earlier removal may have left without their base
fn broken(d: u8) -> Vec<usize> {
    let his = &c().w.his;
    (0..his.len()).filter(|k| his[*k].dir == d && his[*k].st == HSt::Broken).collect()
}
/// after a removal that was not disturbed
fn settle(d: u8, names: &[(Option<u32>, String)], kept: &BTreeSet<(u32, String)>, was: &[usize]) {
    set_unsure(d, names, kept, if kept.is_empty() { HSt::Removed } else { HSt::Unsure });
    if !kept.is_empty() {
        for k in was {
            c().w.his[*k].st = HSt::Broken;
        }
    }
}
/// the listed versions, those of one source in the order they were saved
fn by_age(d: u8, names: &[(Option<u32>, String)]) -> Vec<(Option<u32>, String)> {
    let ent = |n: &(Option<u32>, String)| n.0.and_then(|v| find_ent(d, v, &n.1)).map(|k| &c().w.his[k]);
    let mut r = names.to_vec();
    for i in 1..r.len() {
        let mut j = i;
        while j > 0 && r[j - 1].0 == r[j].0 {
            match (ent(&r[j - 1]), ent(&r[j])) {
                (Some(a), Some(b)) if b.end < a.start => r.swap(j - 1, j),
                _ => break,
            }
            j -= 1;
        }
    }
    r
}
fn remove_old(d: u8, keep: usize) {
    let l = match list(d) {
        Some(l) => l,
        None => return,
    };
    if l.faulted {
        return;
    }
    let names = l.names.clone();
    // 100 and more: about as many as the newest sources have
    let keep = if keep < 100 {
        keep
    } else {
        let mut n = 0;
        let counts: Vec<usize> = l.hs.iter().map(|x| x.1.list_files().len()).collect();
        let sums: Vec<usize> = counts.iter().rev().map(|c| { n += c; n }).collect();
        sums.get(((keep - 100) / 3) % sums.len().max(1)).map_or(1, |n| (n + keep % 3).saturating_sub(1))
    };
    let kept: BTreeSet<(u32, String)> = quiet(|| by_age(d, &names)).iter().rev().take(keep).filter_map(|(v, n)| v.map(|v| (v, n.clone()))).collect();
    let f0 = fired();
    let was = quiet(|| broken(d));
    quiet(|| set_unsure(d, &names, &kept, HSt::Broken));
    let r = call("remove_old_files", || l.hs.remove_old_files(keep, hdir(d)));
    note("removals");
    match r {
        Ok(()) => {
            if fired() == f0 {
                quiet(|| settle(d, &names, &kept, &was));
            }
        }
        Err(e) => err("remove_old_files", f0, e),
    }
}
fn remover(d: u8, seed: u64) {
    let l = match list(d) {
        Some(l) => l,
        None => return,
    };
    if l.faulted {
        return;
    }
    let mut r = Rng::new(seed);
    let all: Vec<&(u128, FileHistory)> = l.hs.iter().filter(|x| !x.1.list_files().is_empty()).collect();
    let (hash, his) = match pick_opt(&mut r, &all) {
        Some(x) => (x.0, &x.1),
        None => return,
    };
    let v = match ver_of(hash) {
        Some(v) => v,
        None => return,
    };
    if r.chance(1, 4) {
        return remove_in_dir(d, v, hash, &mut r);
    }
    let files = his.list_files();
    let den = r.range(1, 4) as u32;
    let rem = call("HistoryRemover", || {
        let rem = HistoryRemover::from(his);
        let mut kept = BTreeSet::new();
        for p in &files {
            if r.chance(1, den) {
                // a broken version may not be keepable
                let b = find_ent(d, v, &p.calc_filename()).map_or(true, |k| c().w.his[k].st == HSt::Broken);
                if rem.keep(p).is_none() && !b {
                    viol("keep", format!("{} cannot be marked to be kept", p.calc_filename()));
                }
                kept.insert((v, p.calc_filename()));
            }
        }
        (rem, kept)
    });
    let names: Vec<(Option<u32>, String)> = files.iter().map(|p| (Some(v), p.calc_filename())).collect();
    let f0 = fired();
    let was = quiet(|| broken(d));
    quiet(|| set_unsure(d, &names, &rem.1, HSt::Broken));
    say(|| format!("keep {:?}", rem.1));
    let kept = rem.1;
    let rem = rem.0;
    let left = call("HistoryRemover::remove", || rem.remove(hash_dir_path(hdir(d), hash)));
    note("removals");
    if fired() == f0 {
        if !left.is_empty() {
            viol("error", format!("removal reports undeleted files although nothing went wrong: {:?}", left));
        }
        quiet(|| settle(d, &names, &kept, &was));
    }
}

/// keeps the latest versions saved under one source
fn remove_in_dir(d: u8, v: u32, hash: u128, r: &mut Rng) {
    let h = match his_info(d) {
        Some(h) => h,
        None => return,
    };
    let f0 = fired();
    let o = h.options();
    let his = match call("FileHistory::create", || FileHistory::create(hdir(d), hash, o.max_phase(), o.is_cumulative())) {
        Ok(h) => h,
        Err(e) => return err("FileHistory::create", f0, e),
    };
    if fired() != f0 {
        return;
    }
    let names: Vec<(Option<u32>, String)> = his.list_files().iter().map(|p| (Some(v), p.calc_filename())).collect();
    let keep = r.below(names.len() + 2);
    let kept: BTreeSet<(u32, String)> = quiet(|| by_age(d, &names)).iter().rev().take(keep).map(|(_, n)| (v, n.clone())).collect();
    let was = quiet(|| broken(d));
    quiet(|| set_unsure(d, &names, &kept, HSt::Broken));
    say(|| format!("keep {:?}", kept));
    let dir = hash_dir_path(hdir(d), hash);
    let left = if r.chance(1, 2) {
        call("FileHistory::remove_old_files", || his.remove_old_files(keep, &dir))
    } else {
        call("FileHistory::remove_files", || unsafe { FileHistory::remove_files(his.get_removable_old_items(keep).into_iter(), &dir) })
    };
    note("removals");
    if fired() == f0 {
        if !left.is_empty() {
            viol("error", format!("removal reports undeleted files although nothing went wrong: {:?}", left));
        }
        quiet(|| settle(d, &names, &kept, &was));
    }
}
/// removes everything saved under one source
fn remove_dir(d: u8, files: bool, seed: u64) {
    let x = c();
    let vers: BTreeSet<u32> = if files {
        x.w.files.iter().filter(|e| e.dir == d && e.states.iter().any(|s| s.doc.is_some())).map(|e| e.ver).collect()
    } else {
        x.w.his.iter().filter(|e| e.dir == d && e.st != HSt::Removed).map(|e| e.ver).collect()
    };
    let vers: Vec<u32> = vers.into_iter().collect();
    let mut r = Rng::new(seed);
    let ver = match pick_opt(&mut r, &vers) {
        Some(v) => *v,
        None => return,
    };
    let f0 = fired();
    let start = tick();
    let base = if files { fdir(d) } else { hdir(d) };
    let gone = quiet(|| {
        for e in x.w.his.iter_mut().filter(|e| !files && e.dir == d && e.ver == ver && e.st != HSt::Removed) {
            e.st = HSt::Broken;
        }
        for e in x.w.files.iter_mut().filter(|e| files && e.dir == d && e.ver == ver) {
            e.states.push(FSt { doc: None, start, end: start, open: false });
            e.made = false;
        }
        let dir = hash_dir_path(&base, x.w.hashes[ver as usize]).to_str().unwrap().to_string();
        !rt().vfs.tree(&base).contains_key(&dir)
    });
    let r = call("remove_hash_dir", || remove_hash_dir(&base, x.w.hashes[ver as usize]));
    say(|| format!("remove_hash_dir of version {} -> {}", ver, r.is_ok()));
    note("removals");
    match r {
        Ok(()) => quiet(|| {
            for e in x.w.his.iter_mut().filter(|e| !files && e.dir == d && e.ver == ver) {
                e.st = HSt::Removed;
            }
            x.w.maybe.retain(|m| files || m.dir != d || m.ver != ver);
            for e in x.w.files.iter_mut().filter(|e| files && e.dir == d && e.ver == ver) {
                e.states.retain(|s| s.doc.is_none());
            }
        }),
        Err(e) => {
            if !gone {
                err("remove_hash_dir", f0, e);
            }
        }
    }
}

// ---------------------------------------------------------------- document files
fn fent(d: u8, ver: u32, name: &str) -> &'static mut FEnt {
    let w = &mut c().w;
    let k = match w.files.iter().position(|f| f.dir == d && f.ver == ver && f.name == name) {
        Some(k) => k,
        None => {
            w.files.push(FEnt { dir: d, ver, name: name.into(), states: vec![FSt { doc: None, start: 0, end: 0, open: false }], made: false });
            w.files.len() - 1
        }
    };
    &mut w.files[k]
}
/// The outcome of a save of one document file.
fn file_done(d: u8, ver: u32, name: &str, start: u64, ok: bool, overwrite: bool, existed: bool) {
    let end = tick();
    let f = fent(d, ver, name);
    let k = match f.states.iter().position(|s| s.start == start && s.open) {
        Some(k) => k,
        None => return,
    };
    if ok {
        if !overwrite && existed {
            viol("overwritten", format!("document file {:?} was overwritten although overwriting was not requested", name));
        }
        if !overwrite && f.made && c().w.stash.is_empty() {
            viol("overwritten", format!("two saves that must not overwrite both made document file {:?}", name));
        }
        f.made |= !overwrite;
        if rt().vfs.read_file(&fpath(d, ver, name)).is_none() {
            viol("lost", format!("the save reported success but {} does not exist", fpath(d, ver, name)));
        }
        f.states[k].open = false;
        f.states[k].end = end;
        let (keep, over): (Vec<FSt>, Vec<FSt>) = f.states.drain(..).partition(|s| s.open || s.start == start || s.end > start);
        f.states = keep;
        // a load that is running may still have seen these
        c().over.extend(over.into_iter().map(|s| (d, ver, name.to_string(), s, end)));
        c().w.cnt.add("file_saves", 1);
    } else if f.states.iter().any(|s| s.doc.is_none() && !s.open) {
        // it did not exist before: absent or complete
        f.states[k].open = false;
        f.states[k].end = end;
    } else {
        f.states.remove(k);
    }
}
fn fpath(d: u8, ver: u32, file: &str) -> String {
    hash_dir_path(fdir(d), c().w.hashes[ver as usize]).join(file).to_str().unwrap().to_string()
}
/// must a save without overwriting be refused?
fn certainly(d: u8, ver: u32, name: &str) -> (bool, bool) {
    let f = fent(d, ver, name);
    (f.states.iter().all(|s| s.doc.is_some() && !s.open), f.states.iter().all(|s| s.doc.is_none() && !s.open))
}
fn fsave(th: &mut Th, d: u8, s: u8, n: u8, o: bool) {
    let h = match file_info(d) {
        Some(h) => h,
        None => return,
    };
    if !ensure(th, s) {
        return;
    }
    let slot = th.slots[s as usize].as_ref().unwrap();
    let name = NAMES[n as usize % NAMES.len()];
    let ver = c().ver;
    let start = tick();
    let f0 = fired();
    let (exists, absent) = quiet(|| {
        let r = certainly(d, ver, name);
        fent(d, ver, name).states.push(FSt { doc: Some(slot.doc.clone()), start, end: u64::MAX, open: true });
        r
    });
    let t0 = quiet(|| save_time(d, ver, name));
    let r = call("save_dochy_file", || save_dochy_file(h, name, &slot.root, o));
    say(|| format!("save_dochy_file {:?} overwrite={} -> {}", name, o, match &r { Ok(_) => "ok".into(), Err(e) => e.to_string() }));
    let ok = r.is_ok();
    if let Err(e) = r {
        // refused because the name exists: right unless it certainly did not
        if o || (absent && !c().par) {
            err("save_dochy_file", f0, e);
        }
    }
    quiet(|| {
        file_done(d, ver, name, start, ok, o, exists);
        if let (true, Some(t0)) = (ok, t0) {
            check_time(d, ver, name, t0);
        }
    });
}
/// the time before a save, when nothing else can change the file meanwhile
fn save_time(d: u8, ver: u32, name: &str) -> Option<i64> {
    let x = c();
    if x.plan.flags.files && !x.par && fent(d, ver, name).states.iter().filter(|s| s.open).count() == 1 {
        return Some(rt().realtime());
    }
    None
}
fn check_time(d: u8, ver: u32, name: &str, t0: i64) {
    let p = fpath(d, ver, name);
    if let Some(i) = rt().vfs.lookup(&p) {
        let t = rt().vfs.get(i).mtime;
        if t < t0 - t0.rem_euclid(crate::shim::grain()) || t > rt().realtime() {
            viol("time", format!("{} was saved but does not have the time of this save", p));
        }
    }
}
fn fsave_nb(th: &mut Th, d: u8, s: u8, n: u8, o: bool) {
    let h = match file_info(d) {
        Some(h) => h,
        None => return,
    };
    if !ensure(th, s) {
        return;
    }
    let slot = th.slots[s as usize].as_ref().unwrap();
    let name = NAMES[n as usize % NAMES.len()];
    let start = tick();
    let id = quiet(|| {
        let x = c();
        let (exists, _) = certainly(d, x.ver, name);
        fent(d, x.ver, name).states.push(FSt { doc: Some(slot.doc.clone()), start, end: u64::MAX, open: true });
        x.nbs.push(Nb { file: true, dir: d, ver: x.ver, tag: None, doc: Doc::default(), start, called: 0, fired0: rt().fired, name: name.into(), overwrite: o, exists, slot: 0 });
        x.quiesced = false;
        x.nbs.len() - 1
    });
    call("save_dochy_file_nb", || {
        save_dochy_file_nb(h, name, &slot.root, o, move |r| {
            let r = r.map(|_| ()).map_err(|e| e.to_string());
            quiet(|| {
                let n = &mut c().nbs[id];
                n.called += 1;
                if n.called > 1 {
                    viol("callback", "the callback of a non-blocking file save was called twice".into());
                }
                let n = n.clone();
                rt().logf(|| format!("file callback #{}: {:?}", id, r));
                if let Err(e) = &r {
                    // another save of the same name may have been first when not overwriting
                    if n.overwrite && rt().fired == n.fired0 {
                        viol("error", format!("a non-blocking file save failed although nothing went wrong: {}", clip(e)));
                    }
                }
                file_done(n.dir, n.ver, &n.name, n.start, r.is_ok(), n.overwrite, n.exists);
            })
        })
    });
    note("nb_file_saves");
}
fn flist(d: u8) -> Option<Vec<FileData>> {
    let _ = file_info(d)?;
    let (f0, st0) = (fired(), rt().fired_stat);
    let start = tick();
    // nothing else changes the directory meanwhile
    let still = quiet(|| !c().par && c().nbs.iter().all(|n| n.called > 0));
    let v = match call("list_dochy_files", || list_dochy_files(fdir(d))) {
        Ok(v) => v,
        Err(e) => {
            err("list_dochy_files", f0, e);
            return None;
        }
    };
    note("listings");
    say(|| format!("files of {}: {:?}", fdir(d), v.iter().map(|f| f.name()).collect::<Vec<_>>()));
    for f in &v {
        ev(5, f.name());
    }
    quiet(|| {
        let x = c();
        for f in &v {
            if x.w.foreign.contains(f.name()) {
                continue;
            }
            let ver = match ver_of(f.hash()) {
                Some(v) => v,
                None => viol("listing", format!("file {:?} of an unknown source is listed", f.name())),
            };
            if !x.w.files.iter().any(|e| e.dir == d && e.ver == ver && e.name == f.name() && e.states.iter().any(|s| s.doc.is_some())) {
                viol("listing", format!("{:?} is listed but no such document file was saved", f.name()));
            }
        }
        // a file that cannot be examined is left out; a directory that cannot be read is an error
        let whole = fired() == f0 || (x.plan.flags.files && still && rt().fired_stat == st0);
        if whole && x.w.stash.is_empty() {
            for e in x.w.files.iter().filter(|e| e.dir == d && e.states.iter().all(|s| s.doc.is_some() && !s.open && s.end < start)) {
                if !v.iter().any(|f| f.name() == e.name && ver_of(f.hash()) == Some(e.ver)) {
                    viol("listing", format!("the saved document file {:?} is not listed", e.name));
                }
            }
        }
        if x.plan.flags.files {
            check_flist(d, &v, still);
        }
    });
    Some(v)
}
/// each file once, oldest first, with its size and time
fn check_flist(d: u8, v: &[FileData], still: bool) {
    for (i, f) in v.iter().enumerate() {
        if still && v[..i].iter().any(|o| o.name() == f.name() && o.hash() == f.hash()) {
            viol("listing", format!("{:?} is listed twice", f.name()));
        }
        if i > 0 && v[i - 1].modified() > f.modified() {
            viol("order", format!("{:?} is listed after {:?} although it is older", f.name(), v[i - 1].name()));
        }
    }
    if !still {
        return;
    }
    for f in v {
        let p = f.calc_path(fdir(d));
        let p = p.to_str().unwrap();
        let n = match rt().vfs.lookup(p) {
            Some(i) => rt().vfs.get(i),
            None => viol("listing", format!("{:?} is listed but there is no {}", f.name(), p)),
        };
        if f.len() != n.data.len() as u64 {
            viol("listing", format!("{:?} is listed with {} bytes instead of {}", f.name(), f.len(), n.data.len()));
        }
        let t = f.modified().duration_since(std::time::UNIX_EPOCH).unwrap().as_nanos() as i64;
        if t != n.mtime {
            viol("time", format!("{:?} is listed with the time {} instead of {}", f.name(), t, n.mtime));
        }
    }
}
fn fload(th: &mut Th, d: u8, which: Option<u32>, slot: Option<u8>) {
    let h = match file_info(d) {
        Some(h) => h,
        None => return,
    };
    let v = match flist(d) {
        Some(v) => v,
        None => return,
    };
    let v: Vec<FileData> = v.into_iter().filter(|f| !c().w.foreign.contains(f.name())).collect();
    let idx: Vec<usize> = match which {
        None => (0..v.len()).collect(),
        Some(w) => {
            if v.is_empty() {
                return;
            }
            vec![w as usize % v.len()]
        }
    };
    for i in idx {
        let f = &v[i];
        let ver = ver_of(f.hash()).unwrap();
        let f0 = fired();
        let path = f.calc_path(fdir(d));
        let start = tick();
        let validation = (i + th.id as usize) % 3 != 0;
        let before = quiet(|| fent(d, ver, f.name()).states.clone());
        let r = call("load_dochy_file", || load_dochy_file(&path, h, validation));
        note("file_loads");
        match r {
            Ok(root) => {
                let m = quiet(|| {
                    let mut best = String::from("nothing was saved under this name");
                    let x = c();
                    let st = &mut fent(d, ver, f.name()).states;
                    // states while the load ran
                    let over = x.over.iter().filter(|o| o.0 == d && o.1 == ver && o.2 == f.name() && o.4 > start).map(|o| &o.3);
                    let cand: Vec<FSt> = before.iter().chain(over).chain(st.iter().filter(|s| s.start > start)).cloned().collect();
                    let mut hit: Vec<(FSt, Doc)> = vec![];
                    for s in cand.iter().rev() {
                        if let Some(doc) = &s.doc {
                            match matches_doc(doc, ver, &root, &[]) {
                                Ok(m) => hit.push((s.clone(), m)),
                                Err(e) => best = e,
                            }
                        }
                    }
                    if let Some((s, m)) = hit.first() {
                        // documents that look the same can differ in the next ID of a list
                        if hit.iter().any(|x| x.1 != *m) {
                            return None;
                        }
                        let stable = !x.par && before.iter().all(|s| !s.open) && st.iter().all(|s| !s.open && s.start <= start) && x.w.stash.is_empty();
                        if stable {
                            // now it is known which of the possible contents it is
                            *st = vec![s.clone()];
                        }
                        return Some(m.clone());
                    }
                    viol("contents", format!("document file {:?} (source version {}) loads with wrong contents: {}", f.name(), ver, best))
                });
                if let (Some(s), Some(m)) = (slot, m) {
                    th.slots[s as usize] = Some(Slot { root: Box::new(root), doc: m, past: vec![] });
                }
            }
            Err(e) => {
                let e = e.to_string();
                say(|| format!("loading {:?} failed: {}", f.name(), e));
                let hurt = quiet(|| {
                    let x = c();
                    x.w.stash.contains_key(path.to_str().unwrap()) || (ver != x.ver && x.w.stash.keys().any(|p| p.starts_with(path.parent().unwrap().to_str().unwrap()) && p.contains("archive")))
                });
                if fired() == f0 && !hurt {
                    viol("load", format!("document file {:?} (source version {}) cannot be loaded: {}", f.name(), ver, clip(&e)));
                }
                note("reported_errors");
            }
        }
    }
}
fn fremove(d: u8, w: u32) {
    let v = match flist(d) {
        Some(v) => v,
        None => return,
    };
    let v: Vec<FileData> = v.into_iter().filter(|f| !c().w.foreign.contains(f.name())).collect();
    if v.is_empty() {
        return;
    }
    let f = &v[w as usize % v.len()];
    let ver = ver_of(f.hash()).unwrap();
    let f0 = fired();
    let start = tick();
    let e = fent(d, ver, f.name());
    if e.states.iter().any(|s| s.open) {
        return;
    }
    quiet(|| e.states.push(FSt { doc: None, start, end: start, open: false }));
    e.made = false;
    let r = call("remove_dochy_file", || remove_dochy_file(fdir(d), f.hash(), f.name()));
    note("file_removals");
    match r {
        Ok(()) => quiet(|| fent(d, ver, f.name()).states.retain(|s| s.doc.is_none())),
        Err(x) => {
            err("remove_dochy_file", f0, x);
            quiet(|| fent(d, ver, f.name()).states.retain(|s| s.start != start));
        }
    }
}

// ---------------------------------------------------------------- concurrency
fn par(th: &mut Th, ts: &Vec<Vec<Op>>) {
    // create the shared infos first or inside the threads
    c().par = true;
    let mut hs = vec![];
    for (i, ops) in ts.iter().enumerate() {
        let slots: Vec<Option<Slot>> = th.slots.iter().map(|s| s.as_ref().map(|s| Slot { root: Box::new((*s.root).clone()), doc: s.doc.clone(), past: s.past.clone() })).collect();
        let ops = ops.clone();
        let mut t = Th { slots, id: i as u64 + 1 };
        hs.push(std::thread::spawn(move || {
            for o in &ops {
                say(|| format!("caller {}: {}", t.id, brief(o)));
                exec(&mut t, o);
                quiet(|| {
                    for s in t.slots.iter().flatten() {
                        if let Err(e) = compare(c().s, &s.doc, &s.root) {
                            viol("document", format!("a document of caller {} changed unexpectedly: {}", t.id, e));
                        }
                    }
                });
            }
        }));
    }
    for h in hs {
        if h.join().is_err() {
            viol("panic", format!("a caller thread panicked: {}", rt().panics.join("; ")));
        }
    }
    drain();
    c().par = false;
    note("parallel_sections");
}

// ---------------------------------------------------------------- damage
fn damage(seed: u64, his: bool) {
    let mut r = Rng::new(seed);
    let x = c();
    let mut all: Vec<String> = vec![];
    for d in (0..NDIRS).flat_map(|d| [hdir(d), fdir(d)]) {
        for (p, data) in rt().vfs.tree(&d) {
            let b = p.rsplit('/').next().unwrap().to_string();
            if data.is_some() && !x.w.foreign.contains(&b) && !x.w.stash.contains_key(&p) && (!his || b.ends_with(".his")) {
                all.push(p);
            }
        }
    }
    let p = match pick_opt(&mut r, &all) {
        Some(p) => p.clone(),
        None => return,
    };
    let data = rt().vfs.read_file(&p).unwrap().clone();
    let now = rt().realtime();
    x.w.stash.insert(p.clone(), Some(data.clone()));
    if r.chance(1, if his { 2 } else { 3 }) || data.is_empty() {
        rt().vfs.remove_file(&p);
        rt().logf(|| format!("DAMAGE {} removed", p));
        x.w.cnt.add("fault.file_missing", 1);
    } else {
        let n = match r.below(4) {
            0 => 0,
            1 => data.len() - 1,
            _ => r.below(data.len()),
        };
        rt().vfs.put_file(&p, data[..n].to_vec(), now);
        rt().logf(|| format!("DAMAGE {} truncated to {} of {}", p, n, data.len()));
        x.w.cnt.add("fault.file_truncated", 1);
    }
}
fn repair() {
    let x = c();
    let now = rt().realtime();
    for (p, d) in std::mem::take(&mut x.w.stash) {
        if let Some(d) = d {
            rt().vfs.put_file(&p, d, now);
        }
    }
}
/// Could the damaged files matter for this version?
fn touched_by_damage(e: &HEnt) -> bool {
    let x = c();
    x.w.stash.keys().any(|p| {
        let dir = hash_dir_path(hdir(e.dir), x.w.hashes[e.ver as usize]);
        let dir = dir.to_str().unwrap();
        if !p.starts_with(dir) {
            return false;
        }
        let name = p.rsplit('/').next().unwrap();
        if name.ends_with(".his") {
            match find_ent(e.dir, e.ver, name) {
                Some(k) => x.w.his[k].start <= e.start,
                None => true,
            }
        } else {
            e.ver != x.ver
        }
    })
}
fn foreign(seed: u64) {
    let mut r = Rng::new(seed);
    let now = rt().realtime();
    for _ in 0..r.range(1, 3) {
        let base = r.pick(&["/sim/h0", "/sim/s0"]).to_string();
        let z = "z".repeat(32);
        let dirs = ["old", "backup of history", z.as_str(), "0123456789abcdef0123456789abcde"];
        let own: Vec<String> = c().w.hashes.iter().map(|h| hash_dir_path(&base, *h).to_str().unwrap().to_string()).filter(|p| rt().vfs.tree(&base).contains_key(p)).collect();
        if !own.is_empty() && r.chance(1, 2) {
            // beside the files of the library, in a directory it made
            let dir = r.pick(&own).clone();
            let n = *r.pick(&["notes.tmp", "readme.txt", "desktop.ini", ".directory", "old.bak", "_", "_7_12", "#", "_0_0.hi", "_1.his", "_1_x.his", "_123456789012_0.his", "_0_123456789012.his", ".his", "a.his", "_-1_0.his", "#.his", "##.his", "#t#.his", "#a#_1.his", "(.his", "(1).his", "(1)_1.his", "_1(0)_0.his"]);
            rt().vfs.put_file(&format!("{}/{}", dir, n), b"hello".to_vec(), now);
            c().w.foreign.insert(n.to_string());
        } else if r.chance(1, 2) {
            let n = r.pick(&dirs);
            rt().vfs.mkdir_p(&format!("{}/{}", base, n), now);
            rt().vfs.put_file(&format!("{}/{}/x.txt", base, n), b"x".to_vec(), now);
            c().w.foreign.insert(n.to_string());
            c().w.foreign.insert("x.txt".into());
        } else {
            let n = *r.pick(&["readme.txt", "thumbs.db", "ffff"]);
            rt().vfs.put_file(&format!("{}/{}", base, n), b"hello".to_vec(), now);
            c().w.foreign.insert(n.to_string());
        }
        c().w.cnt.add("fault.foreign_file", 1);
    }
}

// ---------------------------------------------------------------- source reading
fn src(kind: u8, seed: u64) {
    let f0 = fired();
    let mut r = Rng::new(seed);
    let validation = r.chance(1, 2);
    match kind {
        0 => match call("json_dir_to_root_with_hash", || dochy_core::json_dir_to_root_with_hash("/sim/src", validation)) {
            Ok((root, hash)) => {
                note("source_reads");
                check_source("json_dir_to_root_with_hash", hash, &root)
            }
            Err(e) => err("json_dir_to_root_with_hash", f0, e),
        },
        3 => {
            let r = call("archive_src_dir", || -> Result<_, String> {
                let mut buf: Vec<u8> = vec![];
                dochy_core::archive_src_dir("/sim/src", &mut buf).map_err(|e| e.to_string())?;
                let root = dochy_core::json_dir_to_root("/sim/src", validation).map_err(|e| e.to_string())?;
                let (root2, hash) = dochy_core::read_archive_to_root_with_hash(&mut buf.as_slice(), validation).map_err(|e| e.to_string())?;
                Ok((root, root2, hash))
            });
            match r {
                Ok((root, root2, hash)) => {
                    note("source_reads");
                    check_source("json_dir_to_root", hash, &root);
                    check_source("read_archive_to_root_with_hash", hash, &root2)
                }
                Err(e) => err("archive_src_dir", f0, e),
            }
        }
        5 => broken_source(&mut r, validation),
        _ => {
            let path = format!("/sim/arc/x{}.arc", seed % 3);
            let r1 = call("archive_src_dir", || -> Result<(), String> {
                let mut f = std::fs::File::create(&path).map_err(|e| e.to_string())?;
                dochy_core::archive_src_dir("/sim/src", &mut f).map_err(|e| e.to_string())?;
                Ok(())
            });
            if let Err(e) = r1 {
                err("archive_src_dir", f0, e);
                return;
            }
            let f1 = fired();
            let mut cut = false;
            if kind == 2 {
                quiet(|| {
                    let data = rt().vfs.read_file(&path).unwrap().clone();
                    if !data.is_empty() {
                        let n = if r.chance(1, 3) { data.len() - 1 } else { r.below(data.len()) };
                        let now = rt().realtime();
                        rt().vfs.put_file(&path, data[..n].to_vec(), now);
                        rt().logf(|| format!("archive truncated to {} of {}", n, data.len()));
                        c().w.cnt.add("fault.file_truncated", 1);
                        cut = true;
                    }
                });
            }
            if kind == 1 && r.chance(1, 3) {
                let x = call("archive_file_to_root", || {
                    if r.chance(1, 2) {
                        dochy_core::archive_file_to_root(&path, validation)
                    } else {
                        dochy_core::read_archive_to_root(&mut std::fs::File::open(&path)?, validation)
                    }
                });
                match x {
                    Ok(root) => {
                        note("source_reads");
                        quiet(|| {
                            if let Err(e) = compare(c().s, &Doc::init(c().s), &root) {
                                viol("source", format!("archive_file_to_root: source read wrongly: {}", e));
                            }
                        })
                    }
                    Err(e) => err("archive_file_to_root", f1, e),
                }
                return;
            }
            match call("archive_file_to_root_with_hash", || if kind == 4 {
                let mut f = std::io::BufReader::with_capacity(1 + r.below(64), std::fs::File::open(&path)?);
                dochy_core::read_archive_to_root_with_hash(&mut f, validation)
            } else {
                dochy_core::archive_file_to_root_with_hash(&path, validation)
            }) {
                Ok((root, hash)) => {
                    note("source_reads");
                    if cut {
                        viol("truncated", "a truncated source archive was accepted".into());
                    }
                    check_source("archive_file_to_root_with_hash", hash, &root)
                }
                Err(e) => {
                    if !cut {
                        err("archive_file_to_root_with_hash", f1, e)
                    }
                }
            }
        }
    }
}

/// A source one file of which ends too early has no result, neither as files nor as an archive.
fn broken_source(r: &mut Rng, validation: bool) {
    let dir = "/sim/broken";
    quiet(|| {
        let now = rt().realtime();
        let v = &mut rt().vfs;
        v.mkdir_p(dir, now);
        for f in v.list_dir(dir) {
            v.remove_file(&format!("{}/{}", dir, f));
        }
        let files = c().s.files();
        let whole = |t: &str| t.starts_with('{') || t.starts_with('[');
        let can: Vec<usize> = (0..files.len()).filter(|i| whole(&files[*i].1)).collect();
        let cut = *r.pick(&can);
        for (i, (n, t)) in files.into_iter().enumerate() {
            let mut b = t.into_bytes();
            if i == cut {
                // the closing bracket is missing at least
                let n = b.iter().rposition(|x| *x == b'}' || *x == b']').unwrap();
                b.truncate(if r.chance(1, 3) { n } else { 1 + r.below(n) });
            }
            v.put_file(&format!("{}/{}", dir, n), b, now);
        }
    });
    note("broken_sources");
    let files = call("json_dir_to_root_with_hash", || dochy_core::json_dir_to_root_with_hash(dir, validation));
    let arc = call("archive_src_dir", || -> Result<_, String> {
        let mut buf: Vec<u8> = vec![];
        dochy_core::archive_src_dir(dir, &mut buf).map_err(|e| e.to_string())?;
        dochy_core::read_archive_to_root_with_hash(&mut buf.as_slice(), validation).map_err(|e| e.to_string())
    });
    if files.is_ok() || arc.is_ok() {
        quiet(|| viol("partial", format!("a source with a file that ends too early was accepted{}", if files.is_ok() { "" } else { " from an archive" })));
    }
}

// ---------------------------------------------------------------- archives of any files
/// What archiving has to give: path -> contents.
type Files = BTreeMap<String, Vec<u8>>;
type ArcData = dochy_archiver2::ArchiveData<(String, usize, u64)>;

fn random_bytes(r: &mut Rng) -> Vec<u8> {
    let n = match r.below(72) {
        0..=5 => 0,
        6..=8 => 1,
        9..=29 => r.range(2, 20),
        30..=65 => r.range(20, 1500),
        66..=68 => r.range(1500, 20000),
        69 | 70 => r.range(60000, 140000),
        _ => r.range(200000, 1200000),
    };
    match r.below(3) {
        0 => (0..n).map(|_| r.below(256) as u8).collect(),
        1 => vec![r.below(256) as u8; n],
        _ => {
            let w: Vec<u8> = (0..r.range(1, 60)).map(|_| r.below(256) as u8).collect();
            (0..n).map(|i| w[i % w.len()]).collect()
        }
    }
}
fn random_tree(dir: &str, r: &mut Rng) -> Vec<String> {
    let mut dirs = vec![dir.to_string()];
    for _ in 0..*r.pick(&[0, 0, 1, 2, 4]) {
        let n = if r.chance(1, 12) { "long".repeat(r.range(20, 60)) } else { r.pick(&["sub", "a", "z.txt", "B", "0", "deep.er"]).to_string() };
        let d = format!("{}/{}", r.pick(&dirs), n);
        if !dirs.contains(&d) && d.len() < 900 {
            dirs.push(d);
        }
    }
    let mut files: Vec<String> = vec![];
    for i in 0..*r.pick(&[0, 1, 2, 3, 5, 8, 12, 40, 0, 1, 2, 3, 5, 8, 12, 90]) {
        let e = *r.pick(&["txt", "txt", "dat", "dat", "json5", "", "TXT", "tar.gz", "gz", "t"]);
        let s = *r.pick(&["f", "é", "a b", "x.y", "F", " s", "-"]);
        let n = if e.is_empty() { format!("{}{}{}", s.replace('.', ""), i, r.pick(&["", "", " ", "."])) } else { format!("{}{}.{}", s, i, e) };
        files.push(format!("{}/{}", r.pick(&dirs), n));
    }
    let now = rt().realtime();
    for d in &dirs {
        rt().vfs.mkdir_p(d, now);
    }
    for f in &files {
        let b = random_bytes(r);
        rt().vfs.put_file(f, b, now);
    }
    files
}
fn conv(p: &str, d: &[u8]) -> (String, usize, u64) {
    (p.to_string(), d.len(), fnv(11, d))
}
fn check_archive(what: &str, want: &Files, got: &ArcData) {
    quiet(|| {
        let b = got.btree();
        if let Some(p) = want.keys().find(|p| !b.contains_key(*p)) {
            viol("files", format!("{}: {} is missing ({} of {} files)", what, p, b.len(), want.len()));
        }
        if let Some(p) = b.keys().find(|p| !want.contains_key(*p)) {
            viol("files", format!("{}: {} does not belong to the files", what, p));
        }
        for (p, d) in want {
            let i = &b[p];
            if i.raw_data().as_slice() != d.as_slice() {
                viol("files", format!("{}: {} has wrong contents ({} bytes, {} expected)", what, p, i.raw_data().len(), d.len()));
            }
            if *i.converted_data() != conv(p, d) {
                viol("files", format!("{}: {} was converted from something else: {:?}", what, p, i.converted_data()));
            }
        }
    })
}
/// Reads or writes in pieces, is interrupted, and fails when `left` bytes are done.
struct Pieces<T> {
    inner: T,
    r: Rng,
    left: usize,
    failed: bool,
}
impl<T> Pieces<T> {
    fn piece(&mut self, n: usize) -> std::io::Result<usize> {
        if self.r.chance(1, 9) {
            return Err(std::io::ErrorKind::Interrupted.into());
        }
        if self.left == 0 && n > 0 {
            self.failed = true;
            return Err(std::io::Error::from_raw_os_error(libc::EIO));
        }
        let m = if self.r.chance(1, 2) { n } else { n.min(1 + self.r.below(700)) };
        Ok(m.min(self.left))
    }
    fn done(&mut self, n: usize) {
        if self.left != usize::MAX {
            self.left -= n;
        }
    }
}
impl<T: std::io::Read> std::io::Read for Pieces<T> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        let n = self.piece(b.len())?;
        let n = self.inner.read(&mut b[..n])?;
        self.done(n);
        Ok(n)
    }
}
impl<T: std::io::Write> std::io::Write for Pieces<T> {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        let n = self.piece(b.len())?;
        let n = self.inner.write(&b[..n])?;
        self.done(n);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        self.inner.flush()
    }
}
fn archive_dir(d: u8, seed: u64) {
    use dochy_archiver2::*;
    let mut r = Rng::new(seed);
    let dir = format!("/sim/t{}_{:x}", d, seed as u32);
    let files = quiet(|| random_tree(&dir, &mut r));
    // which files the options ask for
    let exts: Vec<&str> = ["txt", "dat", "gz", "", "TXT"].iter().copied().filter(|_| r.chance(1, 4)).collect();
    let sub = r.chance(2, 3);
    let mut b = ArchiveOptionsBuilder::new();
    for e in &exts {
        b = b.add_extension(e);
    }
    let opt = if exts.is_empty() && sub && r.chance(1, 2) { ArchiveOptions::new() } else { b.archive_subfolders(sub).build().unwrap() };
    let want: Files = quiet(|| {
        files
            .iter()
            .filter(|p| {
                let name = &p[p.rfind('/').unwrap() + 1..];
                let e = name.rfind('.').map_or("", |i| &name[i + 1..]);
                (exts.is_empty() || exts.contains(&e)) && (sub || p.len() == dir.len() + 1 + name.len())
            })
            .map(|p| (p.clone(), rt().vfs.read_file(p).unwrap().clone()))
            .collect()
    });
    note("archived_directories");
    note_n("archived_files", want.len() as u64);
    let f0 = fired();
    let data = match call("read_archive_data_from_directory", || read_archive_data_from_directory(&dir, &opt, conv)) {
        Ok(d) => d,
        Err(e) => return err("read_archive_data_from_directory", f0, e),
    };
    check_archive("read_archive_data_from_directory", &want, &data);
    // write it
    let path = format!("{}.arc", dir);
    let way = r.below(4);
    let f1 = fired();
    let mut failed = false;
    let written = call("write_archive", || -> Result<Option<Vec<u8>>, String> {
        match way {
            0 => {
                let mut v = vec![];
                write_archive(&data, &mut v).map_err(|e| e.to_string())?;
                Ok(Some(v))
            }
            1 => {
                let left = if r.chance(1, 2) { usize::MAX } else { r.below(1000) };
                let mut w = Pieces { inner: vec![], r: Rng::new(r.u64()), left, failed: false };
                let x = write_archive(&data, &mut w);
                failed = w.failed;
                x.map_err(|e| e.to_string())?;
                Ok(Some(w.inner))
            }
            2 => {
                let mut f = std::fs::File::create(&path).map_err(|e| e.to_string())?;
                write_archive(&data, &mut f).map_err(|e| e.to_string())?;
                Ok(None)
            }
            _ => {
                let mut f = std::io::BufWriter::new(std::fs::File::create(&path).map_err(|e| e.to_string())?);
                write_archive(&data, &mut f).map_err(|e| e.to_string())?;
                std::io::Write::flush(&mut f).map_err(|e| e.to_string())?;
                Ok(None)
            }
        }
    });
    if failed {
        note("fault.writer_failed");
        if written.is_ok() {
            viol("files", "an archive was reported written although the writer failed".into());
        }
        return;
    }
    let bytes = match written {
        Ok(b) => b,
        Err(e) => return err("write_archive", f1, e),
    };
    let bytes: Vec<u8> = match bytes {
        Some(b) => b,
        None => quiet(|| rt().vfs.read_file(&path).unwrap().clone()),
    };
    // read it back
    let cut = if r.chance(1, 4) { Some(if r.chance(1, 3) { bytes.len() - 1 } else { r.below(bytes.len()) }) } else { None };
    // the last bytes are contents of files
    let spoil = if cut.is_none() && !want.is_empty() && r.chance(1, 8) { Some(bytes.len() - 1 - r.below(want.len())) } else { None };
    let part = quiet(|| {
        let mut p = bytes[..cut.unwrap_or(bytes.len())].to_vec();
        if let Some(i) = spoil {
            p[i] ^= 1 << r.below(8);
            c().w.cnt.add("fault.file_spoilt", 1);
            rt().logf(|| format!("byte {} of the archive changed", i));
        }
        let now = rt().realtime();
        rt().vfs.put_file(&path, p.clone(), now);
        if cut.is_some() {
            c().w.cnt.add("fault.file_truncated", 1);
            rt().logf(|| format!("archive truncated to {} of {}", p.len(), bytes.len()));
        }
        p
    });
    let f2 = fired();
    let mut failed = false;
    let way = r.below(4);
    let got = call("read_archive", || -> Result<ArcData, String> {
        match way {
            0 => read_archive(conv, &mut part.as_slice()).map_err(|e| e.to_string()),
            1 => {
                let left = if r.chance(1, 2) { usize::MAX } else { r.below(part.len() + 1) };
                let mut p = Pieces { inner: part.as_slice(), r: Rng::new(r.u64()), left, failed: false };
                let x = read_archive(conv, &mut p);
                failed = p.failed;
                x.map_err(|e| e.to_string())
            }
            2 => read_archive(conv, &mut std::fs::File::open(&path).map_err(|e| e.to_string())?).map_err(|e| e.to_string()),
            _ => {
                let f = std::fs::File::open(&path).map_err(|e| e.to_string())?;
                read_archive(conv, &mut std::io::BufReader::with_capacity(1 + r.below(64), f)).map_err(|e| e.to_string())
            }
        }
    });
    if failed {
        note("fault.reader_failed");
    }
    match got {
        Ok(g) => {
            if cut.is_some() || failed {
                viol("truncated", format!("an archive was accepted although {}", if failed { "its reader failed" } else { "it is truncated" }));
            }
            if spoil.is_some() {
                // contents carry no checksum, but files must not get lost
                if g.btree().keys().ne(want.keys()) {
                    viol("files", format!("a damaged archive gave {} of {} files", g.btree().len(), want.len()));
                }
                return;
            }
            check_archive("read_archive", &want, &g);
            if g.hash() != data.hash() {
                viol("identity", format!("the files have identity {:x} and {:x} when read from their archive", data.hash(), g.hash()));
            }
            note("archives_read");
        }
        Err(e) if cut.is_some() || spoil.is_some() || failed => say(|| format!("read_archive -> error: {}", e)),
        Err(e) => return err("read_archive", f2, e),
    }
    // the same files once more, then with one file changed
    let change = !want.is_empty() && r.chance(1, 2);
    let mut want = want;
    if change {
        quiet(|| {
            let k = want.keys().nth(r.below(want.len())).unwrap().clone();
            let v = want.get_mut(&k).unwrap();
            if v.is_empty() || r.chance(1, 3) {
                v.push(r.below(256) as u8);
            } else {
                let i = r.below(v.len());
                v[i] ^= 1 << r.below(8);
            }
            let now = rt().realtime();
            rt().vfs.put_file(&k, v.clone(), now);
        });
    }
    let f3 = fired();
    match call("read_archive_data_from_directory", || read_archive_data_from_directory(&dir, &opt, conv)) {
        Ok(g) => {
            check_archive("read_archive_data_from_directory", &want, &g);
            if (g.hash() == data.hash()) == change {
                viol("identity", if change { "files have the same identity although one was changed".into() } else { format!("the same files have identity {:x} and {:x}", data.hash(), g.hash()) });
            }
        }
        Err(e) => err("read_archive_data_from_directory", f3, e),
    }
}

// ---------------------------------------------------------------- what changed on disk
type Tree = BTreeMap<String, Option<Vec<u8>>>;
fn tree_of() -> Tree {
    rt().vfs.tree("/sim")
}
fn check_tree(op: &Op, before: Tree) {
    let after = tree_of();
    let x = c();
    // which directory may a save prepare, and which file may it write?
    let (base, target): (Option<String>, Option<String>) = match op {
        Op::Save(d, ..) => (Some(hdir(*d)), None),
        Op::FSave(d, _, n, _) => (Some(fdir(*d)), Some(fpath(*d, x.ver, NAMES[*n as usize % NAMES.len()]))),
        Op::FRemove(..) => (None, None),
        Op::Base(..) | Op::Reserved(..) | Op::Again(..) => (None, None),
        Op::List(_) | Op::Load(..) | Op::Newest(..) | Op::LoadAll(_) | Op::FList(_) | Op::FLoad(..) | Op::FLoadAll(_) | Op::New(_) | Op::Copy(..) | Op::Edit(..) | Op::Cmp(..) | Op::Forget(_) => (None, None),
        _ => return,
    };
    if !x.nbs.iter().all(|n| n.called > 0) {
        return;
    }
    let own = base.as_ref().map(|b| hash_dir_path(b, x.w.hashes[x.ver as usize]).to_str().unwrap().to_string());
    c().w.cnt.add("tree_checks", 1);
    let stored = |name: &str| name.ends_with(".his") || NAMES.contains(&name);
    let inside = |p: &str| own.as_ref().map_or(false, |o| p.starts_with(&format!("{}/", o)));
    // once something is stored in it, the directory is prepared
    let prepared = before.keys().any(|p| inside(p) && stored(p.rsplit('/').next().unwrap()) && !x.w.foreign.contains(p.rsplit('/').next().unwrap()));
    // files the library keeps for itself may be rewritten while incomplete
    let lib = |p: &str| {
        let name = p.rsplit('/').next().unwrap();
        inside(p) && !stored(name) && !x.w.foreign.contains(name) && (!prepared || !LASTING.contains(&name))
    };
    let mut new_his = 0;
    let mut gone = 0;
    for p in before.keys().chain(after.keys().filter(|k| !before.contains_key(*k))) {
        let (a, b) = (before.get(p), after.get(p));
        if a == b {
            continue;
        }
        if Some(p) == target.as_ref() && b.is_some() {
            continue;
        }
        match (a, b) {
            (None, Some(_)) => {
                if own.as_ref() == Some(p) {
                    continue;
                }
                match &own {
                    Some(o) if p.starts_with(&format!("{}/", o)) => {
                        if p.ends_with(".his") {
                            new_his += 1;
                        } else if prepared && !rt().kept {
                            viol("tree", format!("{} left {}", brief(op), p));
                        }
                    }
                    _ => viol("tree", format!("{:?} created {}", brief(op), p)),
                }
            }
            (Some(old), Some(new)) => {
                if !lib(p) {
                    viol("tree", format!("{} changed {} ({} -> {} bytes)", brief(op), p, old.as_ref().map_or(0, |d| d.len()), new.as_ref().map_or(0, |d| d.len())));
                }
            }
            (Some(_), None) => {
                if let Op::FRemove(..) = op {
                    gone += 1;
                    if gone <= 1 && p.starts_with("/sim/s") {
                        continue;
                    }
                }
                if !lib(p) {
                    viol("tree", format!("{} removed {}", brief(op), p));
                }
            }
            (None, None) => {}
        }
    }
    if new_his > 1 {
        viol("tree", format!("{} created {} version files", brief(op), new_his));
    }
}
