//! What a run does: source versions, options, incarnations, operations, faults.
//! A plan is generated from a seed alone.
use crate::rt::*;
use crate::schema::*;
use crate::sys::*;
use crate::{ser_enum, ser_struct};

#[derive(Clone, Debug, PartialEq)]
pub enum Op {
    /// fresh document in a slot
    New(u8),
    Copy(u8, u8),
    /// slot, seed, number of edits
    Edit(u8, u64, u32),
    /// history: directory, slot, tag code
    Save(u8, u8, u8),
    SaveNb(u8, u8, u8),
    SaveVac(u8, u8, u8),
    /// wait for all background saves
    Drain,
    List(u8),
    /// directory, which version, into slot
    Load(u8, u32, u8),
    Newest(u8, u8),
    LoadAll(u8),
    /// a stored file is damaged between listing and loading: directory, seed
    LoadLate(u8, u64),
    /// directory, keep
    RemoveOld(u8, u32),
    /// explicit set of versions kept, by seed
    Remover(u8, u64),
    /// document files: directory, slot, name code, overwrite
    FSave(u8, u8, u8, bool),
    FSaveNb(u8, u8, u8, bool),
    FList(u8),
    FLoad(u8, u32, u8),
    FLoadAll(u8),
    FRemove(u8, u32),
    /// several caller threads
    Par(Vec<Vec<Op>>),
    /// wall clock jump in ms
    Clock(i64),
    /// let virtual time pass (ms)
    Sleep(u32),
    /// disk is full after this many more bytes
    Quota(u32),
    NoQuota,
    /// damage a stored file / repair everything
    Damage(u64),
    Repair,
    /// put files in the directories that are not the library's
    Foreign(u64),
    /// replace the source files on disk by those of a version while running
    EditSrc(u32),
    /// forget which document the directory continues
    Forget(u8),
    /// read the source: 0 files, 1 archive, 2 truncated archive, 3 archive kept in memory, 4 through a reader
    Src(u8, u64),
    /// compare two documents
    Cmp(u8, u8),
    /// remove everything saved under one source: directory, of document files, which
    RemoveDir(u8, bool, u64),
    /// non-blocking save whose callback uses the library: directory, slot, tag code, what it does
    SaveNbThen(u8, u8, u8, u8),
    /// name the version the next save derives from: directory, slot, which
    Base(u8, u8, u32),
    /// save or remove under a name of the library's own files: directory, slot, which, remove
    Reserved(u8, u8, u32, bool),
    /// ask for the directory again: directory, 0 same / 1 other options / 2 other source / 3 of document files
    Again(u8, u8),
    /// go on with another source version without a restart
    Switch(u32),
    /// archive a directory of any files and read the archive: which directory, files, options and ways by seed
    Arc(u8, u64),
    /// the same again and again; what is open, running and in use must not grow
    Repeat(Vec<Op>),
}
ser_enum!(Op {
    New(a), Copy(a, b), Edit(a, b, c), Save(a, b, c), SaveNb(a, b, c), SaveVac(a, b, c), Drain(), List(a), Load(a, b, c),
    Newest(a, b), LoadAll(a), RemoveOld(a, b), Remover(a, b), FSave(a, b, c, d), FSaveNb(a, b, c, d), FList(a), FLoad(a, b, c),
    FLoadAll(a), FRemove(a, b), Par(v), Clock(a), Sleep(a), Quota(a), NoQuota(), Damage(a), Repair(), Foreign(a), EditSrc(a),
    Forget(a), Src(a, b), Cmp(a, b), RemoveDir(a, b, c), LoadLate(a, b),
    SaveNbThen(a, b, c, d), Base(a, b, c), Reserved(a, b, c, d), Again(a, b), Switch(a), Arc(a, b), Repeat(v),
});

#[derive(Clone, Debug, PartialEq)]
pub struct OpF {
    pub op: Op,
    pub faults: Vec<Fault>,
}
ser_struct!(OpF { op, faults });

#[derive(Clone, Debug, PartialEq)]
pub struct Inc {
    pub policy: Policy,
    /// source version in force
    pub ver: u32,
    /// the source is given as an archive file
    pub arc: bool,
    /// seconds between the previous end and this start, on the wall clock
    pub gap: i64,
    pub ops: Vec<OpF>,
}
ser_struct!(Inc { policy, ver, arc, gap, ops });

#[derive(Clone, Debug, PartialEq)]
pub struct Opts {
    pub max_phase: u32,
    pub upd0: bool,
    pub cum: bool,
    pub nth: Option<u32>,
    pub count: Option<u32>,
    pub mt_save: bool,
    pub mt_load: bool,
    /// options argument `()` (all defaults)
    pub default: bool,
}
ser_struct!(Opts { max_phase, upd0, cum, nth, count, mt_save, mt_load, default });

#[derive(Clone, Debug, PartialEq, Default)]
pub struct Flags {
    pub order: bool,
    pub count: bool,
    pub tree: bool,
    pub big: bool,
    pub lists_only: bool,
    pub walks: bool,
    pub left: bool,
    pub files: bool,
}
ser_struct!(Flags { order, count, tree, big, lists_only, walks, left, files });

#[derive(Clone, Debug, PartialEq)]
pub struct Plan {
    pub prop: String,
    pub seed: u64,
    pub flags: Flags,
    pub schemas: Vec<Schema>,
    pub opts: Opts,
    /// options used with the source versions after the first
    pub vopts: Vec<Opts>,
    pub incs: Vec<Inc>,
}
ser_struct!(Plan { prop, seed, flags, schemas, opts, vopts, incs });
impl Plan {
    pub fn opts_of(&self, ver: u32) -> &Opts {
        if ver == 0 { &self.opts } else { self.vopts.get(ver as usize - 1).unwrap_or(&self.opts) }
    }
}
impl Opts {
    /// (last phase, is it cumulative, limit of files in it)
    pub fn layout(&self) -> (u32, bool, Option<u32>) {
        if self.default { (3, true, Some(10)) } else { (self.max_phase, self.cum, self.count) }
    }
}

/// the ones behind the ninth are easily taken for others
pub const NAMES: [&str; 22] = [
    "a", "b.dat", "long name with spaces", "日本", "UPPER_lower-1", ".hidden", "_0_0.his", "a.b.c", LONG,
    "A", "a.tmp", "b.tmp", "a ", "b", "B.DAT", "a.b", "b.dat.tmp", "Src.archive", "src.archive.bak", "src", "created_time", "writing",
];
const LONG: &str = "a name of a document file that is about as long as a name may be, so that not much can be added to it before the system refuses it. It needs some more words to get there, and here they are";
pub const TAGS: [Option<&str>; 16] = [
    None, None, None, None, None, Some("t"), Some("release_1"), Some("日本語"), Some("with space"), Some("a#b"), Some("1_2"),
    Some(""), Some("#"), Some("(3)_1_0"), Some("x.his"), Some(LONG),
];

pub struct G {
    pub r: Rng,
    pub cfg: GenCfg,
    pub ops: Vec<OpF>,
    /// which fault classes the profile injects into single operations
    pub ndirs: u8,
    pub tags: bool,
    /// names of document files that are easily taken for each other
    pub alike: bool,
    pub cur: u8,
}
impl G {
    fn op(&mut self, op: Op) {
        self.ops.push(OpF { op, faults: vec![] });
    }
    fn opf(&mut self, op: Op, f: Vec<Fault>) {
        self.ops.push(OpF { op, faults: f });
    }
    fn dir(&mut self) -> u8 {
        if self.ndirs < 2 || self.r.chance(if self.ndirs > 2 { 2 } else { 4 }, 5) { 0 } else { 1 + self.r.below(self.ndirs as usize - 1) as u8 }
    }
    fn tag(&mut self) -> u8 {
        if self.tags { self.r.below(TAGS.len()) as u8 } else { 0 }
    }
    fn name(&mut self) -> u8 {
        if self.alike && self.r.chance(1, 2) {
            9 + self.r.below(NAMES.len() - 9) as u8
        } else if self.r.chance(3, 4) {
            self.r.below(if self.alike { 2 } else { 4 }) as u8
        } else {
            self.r.below(9) as u8
        }
    }
    fn edit(&mut self, slot: u8) {
        let s = self.r.u64();
        let n = match self.r.below(8) {
            0 => 0,
            1..=5 => self.r.range(1, 5),
            _ => self.r.range(5, 25),
        };
        self.op(Op::Edit(slot, s, n as u32));
    }
    fn which(&mut self) -> u32 {
        self.r.u64() as u32
    }
    /// an edit/save step on the current document, with switches between documents
    fn his_step(&mut self) {
        match self.r.below(30) {
            0..=2 => {
                let (d, w, s) = (self.dir(), self.which(), self.r.below(3) as u8);
                self.op(Op::Load(d, w, s));
                self.cur = s;
            }
            3 => {
                let (d, s) = (self.dir(), self.r.below(3) as u8);
                self.op(Op::Newest(d, s));
                self.cur = s;
            }
            4 => {
                let s = self.r.below(3) as u8;
                self.op(Op::New(s));
                self.cur = s;
            }
            5 => {
                let (a, b) = (self.cur, self.r.below(3) as u8);
                self.op(Op::Copy(a, b));
                if self.r.chance(1, 2) {
                    self.cur = b;
                }
            }
            6 | 7 => self.cur = self.r.below(3) as u8,
            8 => {
                let d = self.dir();
                self.op(Op::List(d));
            }
            9 => {
                let d = self.dir();
                match self.r.below(8) {
                    0..=3 => self.op(Op::LoadAll(d)),
                    4 | 5 => self.op(Op::Forget(d)),
                    6 => {
                        let k = self.r.below(4) as u8;
                        self.op(Op::Again(d, k));
                    }
                    _ => {}
                }
                let (c, w) = (self.cur, self.which());
                self.op(Op::Base(d, c, w));
            }
            _ => {
                let c = self.cur;
                self.edit(c);
                let (d, t) = (self.dir(), self.tag());
                self.op(Op::Save(d, c, t));
            }
        }
    }
    fn file_step(&mut self) {
        match self.r.below(20) {
            0..=2 => {
                let (d, w, s) = (self.dir(), self.which(), self.r.below(3) as u8);
                self.op(Op::FLoad(d, w, s));
                self.cur = s;
            }
            3 => {
                let d = self.dir();
                self.op(Op::FList(d));
            }
            4 => {
                let (d, w) = (self.dir(), self.which());
                self.op(Op::FRemove(d, w));
            }
            5 => {
                let s = self.r.below(3) as u8;
                self.op(Op::New(s));
                self.cur = s;
            }
            6 => {
                let (a, b) = (self.cur, self.r.below(3) as u8);
                self.op(Op::Copy(a, b));
                self.cur = b;
            }
            7 => self.cur = self.r.below(3) as u8,
            8 => {
                let d = self.dir();
                if self.r.chance(1, 3) {
                    let (c, w, k) = (self.cur, self.which(), self.r.chance(1, 3));
                    self.op(Op::Reserved(d, c, w, k));
                } else {
                    self.op(Op::FLoadAll(d));
                }
            }
            _ => {
                let c = self.cur;
                self.edit(c);
                let (d, n, o) = (self.dir(), self.name(), self.r.chance(2, 3));
                self.op(Op::FSave(d, c, n, o));
            }
        }
    }
    fn verify(&mut self, his: bool, files: bool) {
        for d in 0..self.ndirs {
            if his {
                self.op(Op::LoadAll(d));
            }
            if files {
                self.op(Op::FLoadAll(d));
            }
        }
    }
    pub fn policy(&mut self) -> Policy {
        let r = &mut self.r;
        let workers = *r.pick(&[1, 1, 2, 2, 3, 4]);
        let mut p = Policy::calm(workers);
        p.seed = r.u64();
        match r.below(10) {
            0 | 1 => {}
            2..=5 => {
                p.sys_every = *r.pick(&[1, 2, 3, 5, 10, 30]);
                p.atom_every = *r.pick(&[0, 1, 3, 10, 30, 100, 300]);
            }
            6 | 7 => {
                p.sys_every = *r.pick(&[3, 8, 30]);
                p.atom_every = *r.pick(&[0, 10, 100]);
                p.stall_every = *r.pick(&[10, 40, 150]);
            }
            _ => p.pct = r.range(1, 5) as u32,
        }
        p
    }
    fn crash(&mut self) -> Fault {
        let r = &mut self.r;
        let mutating = C_OPEN_W | C_WRITE | C_MKDIR | C_UNLINK | C_RENAME;
        let act = match r.below(5) {
            0 | 1 => Act::CrashBefore,
            2 => Act::CrashAfter,
            _ => Act::CrashTorn(r.below(1000) as u32),
        };
        let mask = match (r.below(5), &act) {
            (_, Act::CrashTorn(_)) => C_WRITE,
            (0, _) => C_ALL,
            (1, _) => C_WRITE,
            _ => mutating,
        };
        let path = match r.below(8) {
            0 => ".his",
            1 => "archive",
            2 => "created",
            _ => "",
        };
        let after = if mask == C_ALL { r.below(60) } else { r.below(*r.clone().pick(&[2, 4, 8, 14])) };
        Fault { mask, path: path.into(), after: after as u32, times: 1, act }
    }
    fn write_fault(&mut self) -> Fault {
        let r = &mut self.r;
        let mask = *r.pick(&[C_OPEN_W, C_WRITE, C_WRITE, C_MKDIR, C_RENAME, C_OPEN_W | C_WRITE | C_MKDIR | C_RENAME]);
        let act = match r.below(8) {
            0 | 1 => Act::Err(libc::EIO),
            2 | 3 => Act::Err(libc::ENOSPC),
            4 => Act::Err(libc::EACCES),
            5 => Act::Eintr,
            _ => Act::Short(r.below(900) as u32),
        };
        let times = match act {
            Act::Eintr => r.range(1, 3) as u32,
            _ => *r.pick(&[1, 1, 2, FOREVER]),
        };
        let mask = match act {
            Act::Short(_) => C_WRITE,
            Act::Eintr => mask & (C_OPEN_W | C_WRITE) | C_WRITE,
            _ => mask,
        };
        let path = *r.pick(&["", "", "", ".his", "archive", "created"]);
        Fault { mask, path: path.into(), after: r.below(5) as u32, times, act }
    }
    fn read_fault(&mut self) -> Fault {
        let r = &mut self.r;
        let act = match r.below(8) {
            0..=2 => Act::Err(libc::EIO),
            3 => Act::Err(libc::EACCES),
            4 => Act::Err(libc::EMFILE),
            5 => Act::Eintr,
            _ => Act::Short(r.below(900) as u32),
        };
        let mask = match act {
            Act::Short(_) | Act::Eintr => C_READ,
            Act::Err(libc::EMFILE) => C_OPEN_R,
            _ => *r.pick(&[C_OPEN_R, C_READ, C_READ, C_STAT, C_DIR, C_OPEN_R | C_READ | C_STAT | C_DIR]),
        };
        let times = if act == Act::Eintr { 2 } else { *r.pick(&[1, 1, 2, FOREVER]) };
        Fault { mask, path: "".into(), after: r.below(8) as u32, times, act }
    }
}

/// directories of each kind
pub const NDIRS: u8 = 4;

/// calls a fault hits that lasts until it is cleared
const FOREVER: u32 = 1 << 30;

fn gen_opts(r: &mut Rng, bounded: bool) -> Opts {
    let max_phase = *r.pick(&[0, 1, 2, 3, 3, 4, 5]);
    let mut o = Opts { max_phase, upd0: r.chance(2, 3), cum: r.chance(2, 3), nth: None, count: None, mt_save: r.chance(1, 3), mt_load: r.chance(2, 3), default: false };
    if r.chance(1, 6) {
        o.default = true;
    }
    if o.cum {
        o.nth = if r.chance(2, 3) { Some(r.range(1, 4) as u32) } else { None };
        o.count = if r.chance(2, 3) || bounded { Some(r.range(1, 6) as u32) } else { None };
    }
    if max_phase == 0 {
        o.upd0 = true;
        o.cum = !bounded && r.chance(1, 3);
        o.nth = None;
        o.count = None;
    }
    // with nowhere to go from a full cumulative phase its limits cannot be kept
    if bounded && max_phase == 1 && o.cum {
        o.upd0 = true;
    }
    o
}

pub fn gen_plan(prop: &str, seed: u64) -> Plan {
    let pidx: u64 = fnv(0xcbf29ce484222325, prop.as_bytes());
    let mut r = Rng::new(mix(seed, pidx));
    let cfg = GenCfg { size: if r.chance(1, 6) { 2 } else { 1 } };
    let opts = gen_opts(&mut r, prop == "C14");
    let s0 = gen_schema(&mut r, &cfg);
    let alike = r.chance(1, 3);
    let mut g = G { r, cfg, ops: vec![], ndirs: 1, tags: false, alike, cur: 0 };
    if g.r.chance(1, 4) {
        g.ndirs = if g.r.chance(1, 3) { NDIRS } else { 2 };
    }
    let mut p = Plan { prop: prop.into(), seed, flags: Flags::default(), schemas: vec![s0], opts, vopts: vec![], incs: vec![] };
    p.flags.big = g.r.chance(1, 5);
    match prop {
        "C01" => his_plan(&mut g, &mut p),
        "C02" => file_plan(&mut g, &mut p),
        "C03" => crash_plan(&mut g, &mut p, true, false),
        "C04" => crash_plan(&mut g, &mut p, false, true),
        "C05" => disk_plan(&mut g, &mut p, false),
        "C06" => disk_plan(&mut g, &mut p, true),
        "C07" => nb_plan(&mut g, &mut p, false),
        "C08" => nb_plan(&mut g, &mut p, true),
        "C09" => par_plan(&mut g, &mut p),
        "C10" => remove_plan(&mut g, &mut p),
        "C11" => evolve_plan(&mut g, &mut p),
        "C12" => first_save_plan(&mut g, &mut p),
        "C13" => list_plan(&mut g, &mut p),
        "C14" => count_plan(&mut g, &mut p),
        "C15" => copy_plan(&mut g, &mut p),
        "C16" => damage_plan(&mut g, &mut p),
        "C17" => src_plan(&mut g, &mut p),
        "C18" => tree_plan(&mut g, &mut p),
        "C19" => mlist_plan(&mut g, &mut p),
        "C20" => arc_plan(&mut g, &mut p),
        "C21" => left_plan(&mut g, &mut p),
        "C22" => file_list_plan(&mut g, &mut p),
        _ => panic!("unknown property {}", prop),
    }
    p
}
fn push_inc(g: &mut G, p: &mut Plan, ver: u32) {
    let policy = g.policy();
    let arc = g.r.chance(1, 8);
    let gap = g.r.range(1, 5000) as i64;
    let ops = std::mem::take(&mut g.ops);
    p.incs.push(Inc { policy, ver, arc, gap, ops });
}
fn start_doc(g: &mut G, his: bool) {
    g.cur = 0;
    if g.r.chance(1, 2) {
        g.op(Op::New(0));
    } else {
        let w = g.which();
        if his {
            g.op(Op::Load(0, w, 0));
        } else {
            g.op(Op::FLoad(0, w, 0));
        }
    }
}
/// more than 100 versions in a row
fn burst(g: &mut G) {
    let fresh = g.r.chance(1, 2);
    let n = if g.r.chance(1, 3) { g.r.range(256, 270) } else { g.r.range(100, 115) };
    for _ in 0..n {
        if fresh {
            g.op(Op::New(0));
        } else {
            let s = g.r.u64();
            g.op(Op::Edit(0, s, 1));
        }
        g.op(Op::Save(0, 0, 0));
    }
}
fn his_plan(g: &mut G, p: &mut Plan) {
    let n = g.r.range(1, 4);
    g.tags = g.r.chance(1, 4);
    let long = g.r.chance(1, 50);
    for i in 0..n {
        if i > 0 && g.r.chance(1, 2) {
            g.verify(true, false);
        }
        start_doc(g, true);
        if long && i == 0 {
            burst(g);
        }
        for _ in 0..g.r.range(4, 26) {
            g.his_step();
        }
        if g.r.chance(1, 2) {
            g.verify(true, false);
        }
        push_inc(g, p, 0);
    }
    g.verify(true, false);
    push_inc(g, p, 0);
}
fn file_plan(g: &mut G, p: &mut Plan) {
    let n = g.r.range(1, 3);
    for _ in 0..n {
        start_doc(g, false);
        for _ in 0..g.r.range(4, 22) {
            g.file_step();
            if g.r.chance(1, 60) {
                let (d, s) = (g.dir(), g.r.u64());
                g.op(Op::RemoveDir(d, true, s));
            }
        }
        g.verify(false, true);
        push_inc(g, p, 0);
    }
    g.verify(false, true);
    push_inc(g, p, 0);
}
/// many files, listed again and again, of one or more sources
fn file_list_plan(g: &mut G, p: &mut Plan) {
    p.flags.files = true;
    let n = g.r.range(1, 4);
    let jumps = g.r.chance(1, 3);
    let faults = g.r.chance(1, 2);
    let crashes = g.r.chance(1, 5);
    let slow = g.r.chance(1, 3);
    for i in 0..n {
        if i > 0 {
            maybe_evolve(g, p, 1, 2);
        }
        if g.r.chance(1, 6) {
            let s = g.r.u64();
            g.op(Op::Foreign(s));
        }
        start_doc(g, false);
        let from = g.ops.len();
        for _ in 0..g.r.range(4, 18) {
            g.file_step();
            if let Some(OpF { op: Op::FSave(d, s, n, o), .. }) = g.ops.last().cloned() {
                if g.r.chance(1, 6) {
                    g.ops.last_mut().unwrap().op = Op::FSaveNb(d, s, n, o);
                    if g.r.chance(1, 2) {
                        g.op(Op::Drain);
                    }
                }
            }
            if jumps && g.r.chance(1, 8) {
                let ms = g.r.below(2_000_000_000) as i64 - 1_000_000_000;
                g.op(Op::Drain);
                g.op(Op::Clock(ms));
            }
            if slow && g.r.chance(1, 3) {
                let ms = g.r.range(1, 3000) as u32;
                g.op(Op::Sleep(ms));
            }
            if g.r.chance(1, 2) {
                let d = g.dir();
                let mut f = vec![];
                if faults && g.r.chance(1, 3) {
                    let mut x = g.read_fault();
                    if g.r.chance(2, 3) {
                        x.mask = *g.r.pick(&[C_OPEN_R, C_DIR, C_STAT, C_DIR | C_OPEN_R]);
                        x.act = Act::Err(*g.r.pick(&[libc::EIO, libc::EACCES, libc::ENOMEM]));
                    }
                    f.push(x);
                }
                g.opf(Op::FList(d), f);
            }
            // what a removal of a whole source leaves when it is cut short is not promised
            if !crashes && g.r.chance(1, 40) {
                let (d, s) = (g.dir(), g.r.u64());
                g.op(Op::Drain);
                g.op(Op::RemoveDir(d, true, s));
            }
        }
        if crashes {
            add_crash(g, from);
        }
        g.op(Op::Drain);
        if g.r.chance(1, 5) {
            // listed by one caller while others save
            let mut ths = vec![];
            for t in 0..g.r.range(2, 3) {
                let mut ops = vec![];
                for _ in 0..g.r.range(1, 5) {
                    let (d, n) = (g.dir(), g.name());
                    ops.push(if t == 0 || g.r.chance(1, 4) { Op::FList(d) } else { Op::FSave(d, 0, n, true) });
                }
                ths.push(ops);
            }
            g.op(Op::Par(ths));
            g.op(Op::Drain);
        }
        for d in 0..g.ndirs {
            g.op(Op::FList(d));
        }
        g.verify(false, true);
        let v = p.schemas.len() as u32 - 1;
        push_inc(g, p, v);
    }
    for d in 0..g.ndirs {
        g.op(Op::FList(d));
    }
    g.verify(false, true);
    let v = p.schemas.len() as u32 - 1;
    push_inc(g, p, v);
}
/// puts a crash into some saving operation of the ops generated since `from`
fn add_crash(g: &mut G, from: usize) {
    let c: Vec<usize> = (from..g.ops.len()).filter(|i| matches!(g.ops[*i].op, Op::Save(..) | Op::SaveNb(..) | Op::SaveVac(..) | Op::FSave(..) | Op::FSaveNb(..) | Op::FRemove(..) | Op::RemoveOld(..) | Op::Remover(..) | Op::RemoveDir(..))).collect();
    let all: Vec<usize> = (from..g.ops.len()).collect();
    let i = if c.is_empty() || g.r.chance(1, 12) { pick_opt(&mut g.r, &all).copied() } else { pick_opt(&mut g.r, &c).copied() };
    if let Some(i) = i {
        let f = g.crash();
        g.ops[i].faults.push(f);
    }
}
fn maybe_evolve(g: &mut G, p: &mut Plan, num: u32, den: u32) {
    if g.r.chance(num, den) {
        let mut s = evolve(p.schemas.last().unwrap(), &mut g.r, &g.cfg);
        // back where it was before: make it another source
        while p.schemas.iter().any(|o| o.files() == s.files()) {
            s.salt.push('y');
        }
        p.schemas.push(s);
        // a new source may come with other options
        let o = p.vopts.last().unwrap_or(&p.opts).clone();
        let o = if p.prop == "C11" && g.r.chance(1, 12) {
            gen_opts(&mut g.r, false)
        } else if g.r.chance(1, 2) {
            vary(&o, &mut g.r, p.prop == "C14")
        } else {
            o
        };
        p.vopts.push(o);
    }
}
/// other options that leave the files where they are
fn vary(o: &Opts, r: &mut Rng, bounded: bool) -> Opts {
    let (max_phase, cum, count) = o.layout();
    let mut n = Opts { max_phase, cum, count, default: false, mt_save: r.chance(1, 3), mt_load: r.chance(2, 3), ..o.clone() };
    if max_phase > 1 || max_phase == 1 && !bounded {
        n.upd0 = r.chance(2, 3);
    }
    if cum && max_phase > 0 {
        n.nth = if r.chance(2, 3) { Some(r.range(1, 4) as u32) } else { None };
        n.count = if r.chance(2, 3) || bounded { Some(r.range(1, 6) as u32) } else { None };
    }
    n
}
fn crash_plan(g: &mut G, p: &mut Plan, his: bool, files: bool) {
    let n = g.r.range(2, 5);
    g.tags = g.r.chance(1, 5);
    for i in 0..n {
        if i > 0 {
            g.verify(his, files);
            maybe_evolve(g, p, 1, 6);
        }
        start_doc(g, his);
        let from = g.ops.len();
        for _ in 0..g.r.range(1, 10) {
            if his {
                g.his_step();
                if g.r.chance(1, 8) {
                    let (d, c, t) = (g.dir(), g.cur, g.tag());
                    g.op(Op::SaveNb(d, c, t));
                }
            } else {
                g.file_step();
                if g.r.chance(1, 8) {
                    let (d, c, n) = (g.dir(), g.cur, g.name());
                    g.op(Op::FSaveNb(d, c, n, true));
                }
            }
        }
        if his && g.r.chance(1, 6) {
            let (d, k) = (g.dir(), g.r.range(1, 5) as u32);
            g.op(Op::Drain);
            g.op(Op::RemoveOld(d, k));
        }
        add_crash(g, from);
        let v = p.schemas.len() as u32 - 1;
        push_inc(g, p, v);
    }
    g.verify(his, files);
    start_doc(g, his);
    for _ in 0..3 {
        let c = g.cur;
        g.edit(c);
        if his {
            let (d, t) = (g.dir(), g.tag());
            g.op(Op::Save(d, c, t));
        }
        if files {
            let (d, n) = (g.dir(), g.name());
            g.op(Op::FSave(d, c, n, true));
        }
    }
    g.verify(his, files);
    let v = p.schemas.len() as u32 - 1;
    push_inc(g, p, v);
}
fn disk_plan(g: &mut G, p: &mut Plan, crash: bool) {
    let n = g.r.range(1, 3);
    let his = g.r.chance(3, 4);
    let files = !his || g.r.chance(1, 4);
    for i in 0..n {
        if i > 0 {
            g.verify(his, files);
            maybe_evolve(g, p, 1, 6);
        }
        g.op(Op::New(0));
        g.cur = 0;
        let from = g.ops.len();
        for _ in 0..g.r.range(3, 12) {
            let at = g.ops.len();
            if his && (!files || g.r.chance(1, 2)) {
                g.his_step();
            } else {
                g.file_step();
            }
            if g.r.chance(2, 5) {
                // fault on the save just generated, then the same save again without
                let last = g.ops.len() - 1;
                if last >= at && matches!(g.ops[last].op, Op::Save(..) | Op::FSave(..)) {
                    let mut op = g.ops[last].op.clone();
                    if g.r.chance(1, 5) {
                        op = match op {
                            Op::Save(a, b, c) => Op::SaveNb(a, b, c),
                            Op::FSave(a, b, c, d) => Op::FSaveNb(a, b, c, d),
                            x => x,
                        };
                        g.ops[last].op = op.clone();
                    }
                    if g.r.chance(1, 5) {
                        let k = g.r.below(*g.r.clone().pick(&[40, 400, 3000]));
                        g.ops.insert(last, OpF { op: Op::Quota(k as u32), faults: vec![] });
                        g.op(Op::Drain);
                        g.op(Op::NoQuota);
                    } else {
                        for _ in 0..g.r.range(1, 2) {
                            let f = if g.r.chance(1, 6) { g.read_fault() } else { g.write_fault() };
                            g.ops[last].faults.push(f);
                        }
                        g.op(Op::Drain);
                    }
                    if g.r.chance(2, 3) {
                        let mut op = op;
                        if let Op::FSave(_, _, _, o) | Op::FSaveNb(_, _, _, o) = &mut op {
                            *o = true;
                        }
                        g.op(op);
                    }
                    if g.r.chance(1, 3) {
                        g.verify(his, files);
                    }
                }
            }
        }
        g.op(Op::Drain);
        if crash && g.r.chance(2, 3) {
            add_crash(g, from);
        } else {
            g.verify(his, files);
        }
        let v = p.schemas.len() as u32 - 1;
        push_inc(g, p, v);
    }
    g.verify(his, files);
    if his {
        g.op(Op::Newest(0, 0));
        g.edit(0);
        g.op(Op::Save(0, 0, 0));
    }
    g.verify(his, files);
    let v = p.schemas.len() as u32 - 1;
    push_inc(g, p, v);
}
fn nb_plan(g: &mut G, p: &mut Plan, vac: bool) {
    let n = g.r.range(1, 2);
    g.tags = g.r.chance(1, 4);
    let chains = !vac && g.r.chance(1, 4);
    for _ in 0..n {
        start_doc(g, true);
        // a long queue
        if g.r.chance(1, 10) {
            let (d, c) = (g.dir(), g.cur);
            for _ in 0..g.r.range(17, 40) {
                let (s, t) = (g.r.u64(), g.tag());
                g.op(Op::Edit(c, s, 1));
                let vac = g.r.chance(1, 12);
                g.op(if vac { Op::SaveVac(d, c, t) } else { Op::SaveNb(d, c, t) });
            }
        }
        for _ in 0..g.r.range(3, 14) {
            let c = g.cur;
            g.edit(c);
            let (d, t) = (g.dir(), g.tag());
            let k = g.r.below(20);
            let op = match k {
                0..=7 if vac => Op::SaveVac(d, c, t),
                0 | 1 if chains => Op::SaveNbThen(d, c, t, g.r.below(5) as u8),
                0..=11 => Op::SaveNb(d, c, t),
                12 | 13 => {
                    let (n, o) = (g.r.below(2) as u8, g.r.chance(3, 4));
                    Op::FSaveNb(d, c, n, o)
                }
                14 => Op::Save(d, c, t),
                15 => Op::Sleep(g.r.range(1, 50) as u32),
                16 => Op::Drain,
                17 => Op::Load(d, g.which(), g.r.below(3) as u8),
                18 => Op::SaveVac(d, c, t),
                _ => {
                    g.cur = g.r.below(3) as u8;
                    Op::Copy(c, g.cur)
                }
            };
            let f = if g.r.chance(1, 12) && matches!(op, Op::SaveNb(..) | Op::SaveVac(..) | Op::FSaveNb(..)) { vec![g.write_fault()] } else { vec![] };
            g.opf(op.clone(), f);
            if vac && g.r.chance(1, 2) {
                if g.r.chance(1, 3) {
                    let ms = g.r.range(1, 20);
                    g.op(Op::Sleep(ms as u32));
                }
                let (d, c, t) = (g.dir(), g.cur, g.tag());
                g.op(Op::SaveVac(d, c, t));
            }
            // keep editing the document that is being saved
            if g.r.chance(2, 3) {
                let c = g.cur;
                g.edit(c);
            }
        }
        g.op(Op::Drain);
        if vac {
            let (d, c, t) = (g.dir(), g.cur, g.tag());
            g.op(Op::SaveVac(d, c, t));
            g.op(Op::Drain);
        }
        g.verify(true, true);
        if g.r.chance(1, 6) {
            add_crash(g, 0);
        }
        push_inc(g, p, 0);
    }
    g.verify(true, true);
    push_inc(g, p, 0);
    // a calm schedule cannot show much here
    for i in p.incs.iter_mut() {
        if i.policy.sys_every == 0 && i.policy.pct == 0 {
            i.policy.sys_every = 4;
        }
    }
}
fn par_plan(g: &mut G, p: &mut Plan) {
    let n = g.r.range(1, 2);
    g.ndirs = *g.r.pick(&[1, 1, 1, 2, 2, NDIRS]);
    let files = g.r.chance(1, 2);
    // many saves that must not overwrite, of a few new names
    let fresh = files && g.r.chance(1, 2);
    for _ in 0..n {
        g.op(Op::New(0));
        g.op(Op::New(1));
        g.op(Op::New(2));
        if g.r.chance(2, 3) {
            for c in 0..2u8 {
                g.edit(c);
                let d = g.dir();
                g.op(Op::Save(d, c, 0));
                if files {
                    g.op(Op::FSave(d, c, 0, true));
                }
            }
        }
        for _ in 0..g.r.range(1, 2) {
            let mut ths = vec![];
            for _ in 0..g.r.range(2, 4) {
                let keep = std::mem::take(&mut g.ops);
                for _ in 0..g.r.range(1, 6) {
                    let c = g.r.below(2) as u8;
                    let d = g.r.below(g.ndirs as usize) as u8;
                    let w = g.which();
                    let op = match g.r.below(if files { 14 } else { 8 }) {
                        0..=3 => {
                            g.edit(c);
                            Op::Save(d, c, 0)
                        }
                        4 => {
                            g.edit(c);
                            if w % 4 == 0 { Op::SaveNbThen(d, c, 0, (w / 4 % 5) as u8) } else { Op::SaveNb(d, c, 0) }
                        }
                        5 => Op::List(d),
                        6 => Op::Load(d, w, c),
                        7 => Op::New(c),
                        8..=10 => {
                            g.edit(c);
                            let n = if fresh { 1 + (w % 3) as u8 } else { (w % 2) as u8 };
                            Op::FSave(d, c, n, if fresh { g.r.chance(1, 5) } else { g.r.chance(4, 5) })
                        }
                        11 => {
                            let n = if fresh { 1 + (w % 3) as u8 } else { (w % 2) as u8 };
                            Op::FSaveNb(d, c, n, !fresh || g.r.chance(1, 3))
                        }
                        12 => Op::FList(d),
                        _ => Op::FLoad(d, w, c),
                    };
                    g.op(op);
                }
                let t: Vec<Op> = std::mem::replace(&mut g.ops, keep).into_iter().map(|o| o.op).collect();
                ths.push(t);
            }
            g.op(Op::Par(ths));
        }
        g.op(Op::Drain);
        g.verify(true, files);
        g.op(Op::Newest(0, 0));
        g.edit(0);
        g.op(Op::Save(0, 0, 0));
        push_inc(g, p, 0);
    }
    g.verify(true, files);
    push_inc(g, p, 0);
    for i in p.incs.iter_mut() {
        if i.policy.sys_every == 0 && i.policy.pct == 0 {
            i.policy.sys_every = 3;
        }
    }
}
fn remove_plan(g: &mut G, p: &mut Plan) {
    // many sources with few versions each
    let many = g.r.chance(1, 4);
    let n = if many { g.r.range(3, 6) } else { g.r.range(1, 4) };
    let faulty = g.r.chance(1, 2);
    for i in 0..n {
        if i > 0 {
            maybe_evolve(g, p, if many { 4 } else { 1 }, 4);
        }
        start_doc(g, true);
        for _ in 0..if many { g.r.range(1, 7) } else { g.r.range(3, 14) } {
            g.his_step();
        }
        if many && i < 2 {
            g.op(Op::Drain);
            let v = p.schemas.len() as u32 - 1;
            push_inc(g, p, v);
            continue;
        }
        for _ in 0..g.r.range(1, 2) {
            let d = g.dir();
            let op = if g.r.chance(1, 6) {
                Op::RemoveDir(d, false, g.r.u64())
            } else if g.r.chance(3, 5) {
                Op::RemoveOld(d, if g.r.chance(if many { 3 } else { 1 }, 4) { 100 + g.r.below(18) as u32 } else { *g.r.pick(&[0, 1, 1, 2, 3, 4, 6, 9]) })
            } else {
                Op::Remover(d, g.r.u64())
            };
            let mut f = vec![];
            if faulty && g.r.chance(1, 2) {
                let after = g.r.below(6) as u32;
                let times = *g.r.pick(&[1, 2, FOREVER]);
                let mask = *g.r.pick(&[C_UNLINK, C_UNLINK, C_UNLINK | C_DIR | C_OPEN_R]);
                f.push(if g.r.chance(1, 2) {
                    Fault { mask, path: "".into(), after, times, act: Act::Err(*g.r.pick(&[libc::EIO, libc::EACCES])) }
                } else {
                    Fault { mask, path: "".into(), after, times: 1, act: if g.r.chance(1, 2) { Act::CrashBefore } else { Act::CrashAfter } }
                });
            }
            g.opf(op, f);
            g.verify(true, false);
            // go on with the documents in hand
            for _ in 0..g.r.range(0, 5) {
                g.his_step();
            }
        }
        g.verify(true, false);
        let v = p.schemas.len() as u32 - 1;
        push_inc(g, p, v);
    }
    g.verify(true, false);
    g.op(Op::Newest(0, 0));
    g.edit(0);
    g.op(Op::Save(0, 0, 0));
    g.verify(true, false);
    let v = p.schemas.len() as u32 - 1;
    push_inc(g, p, v);
}
fn evolve_plan(g: &mut G, p: &mut Plan) {
    let n = g.r.range(2, 4);
    let files = g.r.chance(1, 2);
    let his = !files || g.r.chance(2, 3);
    let mut start = 0;
    for i in 0..n {
        if i > 0 {
            maybe_evolve(g, p, 5, 6);
            let v = p.schemas.len() as u32 - 1;
            if g.r.chance(1, 6) {
                g.op(Op::Drain);
                g.op(Op::Switch(v));
            } else {
                push_inc(g, p, start);
                start = v;
            }
            g.verify(his, files);
        }
        start_doc(g, his);
        for _ in 0..g.r.range(2, 9) {
            if his && (!files || g.r.chance(1, 2)) {
                g.his_step();
            } else {
                g.file_step();
            }
        }
        if i > 0 {
            // take an old version, edit it and save it under the new source
            let (w, c) = (g.which(), g.r.below(3) as u8);
            if his {
                g.op(Op::Load(0, w, c));
                g.edit(c);
                g.op(Op::Save(0, c, 0));
            } else {
                g.op(Op::FLoad(0, w, c));
                g.edit(c);
                g.op(Op::FSave(0, c, 1, true));
            }
            g.verify(his, files);
        }
    }
    push_inc(g, p, start);
    g.verify(his, files);
    let v = p.schemas.len() as u32 - 1;
    push_inc(g, p, v);
}
fn first_save_plan(g: &mut G, p: &mut Plan) {
    let n = g.r.range(2, 4);
    let files = g.r.chance(1, 3);
    let his = !files || g.r.chance(1, 3);
    for i in 0..n {
        if i > 0 {
            if g.r.chance(2, 3) && p.incs[i - 1].ops.iter().all(|o| !matches!(o.op, Op::EditSrc(_))) {
                maybe_evolve(g, p, 1, 1);
            }
            g.verify(his, files);
        }
        let v = p.schemas.len() as u32 - 1;
        g.op(Op::New(0));
        g.edit(0);
        if g.r.chance(1, 3) {
            maybe_evolve(g, p, 1, 1);
            g.op(Op::EditSrc(p.schemas.len() as u32 - 1));
        }
        let mut f = vec![];
        match g.r.below(4) {
            0 => {}
            1 => f.push(g.crash()),
            _ => f.push(g.write_fault()),
        }
        if !f.is_empty() && g.r.chance(1, 2) {
            f[0].path = g.r.pick(&["archive", "created", ""]).to_string();
            f[0].after = g.r.below(3) as u32;
        }
        let save = |g: &mut G| if his && (!files || g.r.chance(1, 2)) { Op::Save(0, 0, 0) } else { Op::FSave(0, 0, 0, true) };
        let op = save(g);
        g.opf(op, f);
        for _ in 0..g.r.range(0, 3) {
            g.edit(0);
            let op = save(g);
            let f = if g.r.chance(1, 4) { vec![g.write_fault()] } else { vec![] };
            g.opf(op, f);
        }
        g.edit(0);
        let op = save(g);
        g.op(op);
        g.verify(his, files);
        push_inc(g, p, v);
        // the edited source is the one in force from now on
    }
    for _ in 0..2 {
        g.verify(his, files);
        let v = p.schemas.len() as u32 - 1;
        push_inc(g, p, v);
        maybe_evolve(g, p, 1, 1);
    }
}
fn list_plan(g: &mut G, p: &mut Plan) {
    g.tags = true;
    p.flags.order = true;
    let n = g.r.range(1, 4);
    let evolve_src = g.r.chance(1, 4);
    let jumps = !evolve_src || g.r.chance(1, 3);
    let long = g.r.chance(1, 50);
    // sources that follow each other within a second
    let quick = evolve_src && g.r.chance(1, 4);
    for i in 0..n {
        if i > 0 && evolve_src {
            maybe_evolve(g, p, 2, 3);
        }
        if quick && i + 1 < n {
            start_doc(g, true);
            for _ in 0..g.r.range(1, 3) {
                let (d, t) = (g.dir(), g.tag());
                g.edit(0);
                g.op(Op::Save(d, 0, t));
            }
            let v = p.schemas.len() as u32 - 1;
            push_inc(g, p, v);
            p.incs.last_mut().unwrap().gap = 0;
            continue;
        }
        if g.r.chance(1, 6) {
            let s = g.r.u64();
            g.op(Op::Foreign(s));
        }
        start_doc(g, true);
        if long && i == 0 {
            burst(g);
        }
        for _ in 0..g.r.range(4, 20) {
            g.his_step();
            if jumps && g.r.chance(1, 8) {
                let ms = g.r.below(2_000_000_000) as i64 - 1_000_000_000;
                g.op(Op::Clock(ms));
            }
            if g.r.chance(1, 3) {
                let d = g.dir();
                g.op(Op::List(d));
            }
            if g.r.chance(1, 10) {
                let (d, c, t) = (g.dir(), g.cur, g.tag());
                g.op(Op::SaveNb(d, c, t));
            }
            if g.r.chance(1, 14) {
                let (d, k) = (g.dir(), g.r.below(6) as u32);
                g.op(Op::Drain);
                g.op(Op::RemoveOld(d, k));
            }
            if g.r.chance(1, 20) {
                let (d, s) = (g.dir(), g.r.u64());
                g.op(Op::Drain);
                g.op(Op::Remover(d, s));
                g.op(Op::Newest(d, 2));
            }
            if evolve_src && g.r.chance(1, 12) {
                let (d, s) = (g.dir(), g.r.u64());
                g.op(Op::Foreign(s));
                g.op(Op::Newest(d, 2));
            }
        }
        g.op(Op::Drain);
        for d in 0..g.ndirs {
            g.op(Op::List(d));
            g.op(Op::Newest(d, 0));
        }
        let v = p.schemas.len() as u32 - 1;
        push_inc(g, p, v);
        if quick {
            p.incs.last_mut().unwrap().gap = 0;
        }
    }
    for d in 0..g.ndirs {
        g.op(Op::List(d));
    }
    g.verify(true, false);
    let v = p.schemas.len() as u32 - 1;
    push_inc(g, p, v);
}
fn count_plan(g: &mut G, p: &mut Plan) {
    p.flags.count = true;
    g.ndirs = 1;
    let n = g.r.range(1, 3);
    for _ in 0..n {
        start_doc(g, true);
        for _ in 0..g.r.range(10, 50) {
            g.his_step();
            if let Some(OpF { op: Op::Save(d, s, t), .. }) = g.ops.last().cloned() {
                if g.r.chance(1, 6) {
                    g.ops.last_mut().unwrap().op = Op::SaveNb(d, s, t);
                    g.op(Op::Drain);
                }
            }
            let f = match g.ops.last() {
                Some(OpF { op: Op::Load(..), .. }) if g.r.chance(1, 4) => g.read_fault(),
                Some(OpF { op: Op::Save(..), .. }) if g.r.chance(1, 12) => if g.r.chance(1, 2) { g.read_fault() } else { g.write_fault() },
                _ => continue,
            };
            g.ops.last_mut().unwrap().faults.push(f);
        }
        push_inc(g, p, 0);
    }
    // loads from a cold cache: one version per process
    for _ in 0..4 {
        let w = g.which();
        g.op(Op::Load(0, w, 0));
        push_inc(g, p, 0);
    }
    g.op(Op::Newest(0, 0));
    push_inc(g, p, 0);
}
fn copy_plan(g: &mut G, p: &mut Plan) {
    p.flags.lists_only = g.r.chance(1, 2);
    let n = g.r.range(1, 3);
    for _ in 0..n {
        start_doc(g, true);
        for _ in 0..g.r.range(6, 24) {
            let (a, b) = (g.r.below(4) as u8, g.r.below(4) as u8);
            let w = g.which();
            match g.r.below(16) {
                0..=6 => g.edit(a),
                7..=9 => g.op(Op::Copy(a, b)),
                10 => g.op(Op::SaveNb(0, a, 0)),
                11 => g.op(Op::Save(0, a, 0)),
                12 => g.op(Op::Load(0, w, b)),
                13 => g.op(Op::FSave(0, a, 0, true)),
                14 => g.op(Op::FLoad(0, w, b)),
                _ => g.op(Op::FSaveNb(0, a, 1, true)),
            }
        }
        g.op(Op::Drain);
        push_inc(g, p, 0);
        maybe_evolve(g, p, 1, 5);
        let l = p.incs.len();
        if p.schemas.len() > 1 {
            p.incs[l - 1].ver = 0.max(p.schemas.len() as u32 - 2);
        }
    }
    // keep versions monotone
    let mut v = 0;
    for i in p.incs.iter_mut() {
        v = v.max(i.ver);
        i.ver = v;
    }
    g.verify(true, true);
    let w = g.which();
    g.op(Op::Load(0, w, 0));
    g.edit(0);
    g.edit(0);
    let v = p.schemas.len() as u32 - 1;
    push_inc(g, p, v);
}
fn damage_plan(g: &mut G, p: &mut Plan) {
    let his = g.r.chance(2, 3);
    let files = !his || g.r.chance(1, 3);
    let n = g.r.range(1, 2);
    for i in 0..n {
        if i > 0 {
            maybe_evolve(g, p, 1, 2);
        }
        start_doc(g, his);
        for _ in 0..g.r.range(4, 14) {
            if his && (!files || g.r.chance(1, 2)) {
                g.his_step();
            } else {
                g.file_step();
            }
        }
        let v = p.schemas.len() as u32 - 1;
        push_inc(g, p, v);
    }
    maybe_evolve(g, p, 1, 4);
    for _ in 0..g.r.range(1, 3) {
        match g.r.below(6) {
            0 if his => {
                let s = g.r.u64();
                g.op(Op::LoadLate(0, s));
            }
            0..=3 => {
                for _ in 0..g.r.range(1, 2) {
                    let s = g.r.u64();
                    g.op(Op::Damage(s));
                }
                g.verify(his, files);
                g.op(Op::Repair);
            }
            _ => {
                for _ in 0..g.r.range(1, 4) {
                    let mut f = vec![g.read_fault()];
                    if g.r.chance(1, 5) {
                        f.push(g.read_fault());
                    }
                    let (w, s) = (g.which(), g.r.below(3) as u8);
                    let op = if his && (!files || g.r.chance(1, 2)) {
                        match g.r.below(5) {
                            0 => Op::List(0),
                            1 => Op::LoadAll(0),
                            _ => Op::Load(0, w, s),
                        }
                    } else {
                        match g.r.below(5) {
                            0 => Op::FList(0),
                            _ => Op::FLoad(0, w, s),
                        }
                    };
                    g.opf(op, f);
                }
            }
        }
        g.verify(his, files);
        let v = p.schemas.len() as u32 - 1;
        push_inc(g, p, v);
    }
    g.verify(his, files);
    let v = p.schemas.len() as u32 - 1;
    push_inc(g, p, v);
}
fn src_plan(g: &mut G, p: &mut Plan) {
    let n = g.r.range(1, 3);
    for _ in 0..n {
        for _ in 0..g.r.range(2, 6) {
            let (k, s) = (*g.r.pick(&[0, 0, 1, 1, 2, 3, 4, 5]), g.r.u64());
            let mut f = vec![];
            if g.r.chance(1, 8) {
                // a file that disappears after it was listed
                f.push(Fault { mask: C_OPEN_R, path: "".into(), after: g.r.below(5) as u32, times: 1, act: Act::Err(libc::ENOENT) });
            } else if g.r.chance(1, 2) {
                f.push(if k == 0 || k == 3 || g.r.chance(1, 2) { g.read_fault() } else { g.write_fault() });
            }
            g.opf(Op::Src(k, s), f);
            if g.r.chance(1, 5) {
                let ms = g.r.below(2_000_000_000) as i64 - 1_000_000_000;
                g.op(Op::Clock(ms));
            }
        }
        if g.r.chance(1, 2) {
            let f = if g.r.chance(1, 2) { vec![g.read_fault()] } else { vec![] };
            g.opf(Op::New(0), f);
            g.op(Op::New(0));
            g.op(Op::Src(0, 0));
            g.op(Op::Src(1, 0));
        }
        push_inc(g, p, 0);
    }
    for i in p.incs.iter_mut() {
        i.arc = i.arc || g.r.chance(1, 4);
        if i.policy.sys_every == 0 && i.policy.pct == 0 {
            i.policy.sys_every = 3;
        }
    }
}
fn arc_plan(g: &mut G, p: &mut Plan) {
    for _ in 0..g.r.range(1, 2) {
        for _ in 0..g.r.range(1, 4) {
            let mut f = vec![];
            match g.r.below(8) {
                0..=1 => f.push(g.read_fault()),
                2 => {
                    let mut w = g.write_fault();
                    w.path = "".into();
                    f.push(w)
                }
                3 => f.push(Fault { mask: C_OPEN_R, path: "".into(), after: g.r.below(6) as u32, times: 1, act: Act::Err(libc::ENOENT) }),
                _ => {}
            }
            let n = *g.r.pick(&[1, 1, 1, 2, 3]);
            if n == 1 {
                let (d, s) = (g.r.below(3) as u8, g.r.u64());
                g.opf(Op::Arc(d, s), f);
            } else {
                let ths = (0..n).map(|d| (0..g.r.range(1, 2)).map(|_| Op::Arc(d, g.r.u64())).collect()).collect();
                g.opf(Op::Par(ths), f);
            }
            if g.r.chance(1, 6) {
                let ms = g.r.below(2_000_000_000) as i64 - 1_000_000_000;
                g.op(Op::Clock(ms));
            }
        }
        push_inc(g, p, 0);
    }
    for i in p.incs.iter_mut() {
        if i.policy.sys_every == 0 && i.policy.pct == 0 {
            i.policy.sys_every = 3;
        }
    }
}
/// each kind of operation many times over, also when it fails each time
fn left_plan(g: &mut G, p: &mut Plan) {
    p.flags.left = true;
    p.flags.big = false;
    g.ndirs = 1;
    for _ in 0..g.r.range(1, 2) {
        start_doc(g, true);
        for _ in 0..g.r.range(1, 6) {
            g.his_step();
        }
        for _ in 0..g.r.range(0, 3) {
            g.file_step();
        }
        for _ in 0..g.r.range(1, 3) {
            let (s, n, w, d) = (g.r.u64(), g.r.range(0, 8) as u32, g.which(), g.dir());
            let fresh = |mut v: Vec<Op>| {
                v.insert(0, Op::New(3));
                v.insert(1, Op::Edit(3, s, n));
                v
            };
            let (ops, saves) = match g.r.below(21) {
                0 => (vec![Op::List(d)], false),
                1 => (vec![Op::Load(d, w, 3)], false),
                2 => (vec![Op::Newest(d, 3)], false),
                3 => (vec![Op::FList(d), Op::FLoad(d, w, 3)], false),
                4 => (vec![Op::Src(*g.r.pick(&[0, 0, 1, 2, 3, 4, 5]), s)], false),
                5 => (vec![Op::Arc(0, s)], false),
                6 => (fresh(vec![Op::Copy(3, 2), Op::Cmp(3, 2)]), false),
                7 => (vec![Op::Again(d, g.r.below(4) as u8)], false),
                8 => (vec![Op::Save(d, 0, 0)], true),
                9 => (fresh(vec![Op::Save(d, 3, 0)]), true),
                10 => (vec![Op::SaveNb(d, 0, 0)], true),
                11 => (fresh(vec![Op::SaveNb(d, 3, 0)]), true),
                12 => (vec![Op::SaveVac(d, 0, 0), Op::Sleep(500)], true),
                13 => (fresh(vec![Op::FSave(d, 3, 0, true)]), true),
                14 => (fresh(vec![Op::FSaveNb(d, 3, 0, true)]), true),
                15 => (vec![Op::Forget(d), Op::Save(d, 0, 0)], true),
                16 => (fresh(vec![Op::FSave(d, 3, 5, true), Op::FRemove(d, w)]), true),
                17 => (vec![Op::Save(d, 0, 0), Op::Remover(d, s)], true),
                18 => (vec![Op::Par(vec![vec![Op::Load(d, w, 0)], vec![Op::List(d)]])], false),
                19 => (vec![Op::Save(d, 0, 0), Op::Newest(d, 3)], true),
                _ => (vec![Op::Save(d, 0, 0), Op::RemoveOld(d, g.r.below(5) as u32)], true),
            };
            let mut f = vec![];
            let damaged = !saves && g.r.chance(1, 5);
            if damaged {
                let s = g.r.u64();
                g.op(Op::Damage(s));
            } else if g.r.chance(1, 2) {
                let mut x = if saves && g.r.chance(2, 3) { g.write_fault() } else { g.read_fault() };
                if x.act != Act::Eintr {
                    x.times = FOREVER;
                }
                f.push(x);
            }
            g.opf(Op::Repeat(ops), f);
            if damaged {
                g.op(Op::Repair);
            }
        }
        push_inc(g, p, 0);
    }
}
fn tree_plan(g: &mut G, p: &mut Plan) {
    p.flags.tree = true;
    let his = g.r.chance(2, 3);
    let files = !his || g.r.chance(1, 2);
    g.ndirs = *g.r.pick(&[1, 1, 1, 2, 2, NDIRS]);
    let n = g.r.range(1, 3);
    for i in 0..n {
        if i > 0 {
            maybe_evolve(g, p, 1, 3);
        }
        if g.r.chance(1, 5) {
            let s = g.r.u64();
            g.op(Op::Foreign(s));
        }
        if i > 0 && g.r.chance(1, 2) {
            g.verify(his, files);
        }
        start_doc(g, his);
        let from = g.ops.len();
        for _ in 0..g.r.range(4, 18) {
            if g.r.chance(1, 20) {
                let s = g.r.u64();
                g.op(Op::Foreign(s));
            }
            if his && (!files || g.r.chance(1, 2)) {
                g.his_step();
            } else {
                g.file_step();
            }
            let l = g.ops.len();
            if l > 0 && g.r.chance(1, 4) {
                match g.ops[l - 1].op {
                    Op::Save(..) | Op::FSave(..) => {
                        let f = g.write_fault();
                        g.ops[l - 1].faults.push(f);
                    }
                    Op::Load(..) | Op::List(..) | Op::FLoad(..) | Op::FList(..) | Op::LoadAll(..) => {
                        let f = g.read_fault();
                        g.ops[l - 1].faults.push(f);
                    }
                    _ => {}
                }
            }
        }
        if i + 1 < n && g.r.chance(1, 2) {
            add_crash(g, from);
        }
        let v = p.schemas.len() as u32 - 1;
        push_inc(g, p, v);
    }
    g.verify(his, files);
    let v = p.schemas.len() as u32 - 1;
    push_inc(g, p, v);
}
fn mlist_plan(g: &mut G, p: &mut Plan) {
    p.flags.walks = true;
    p.flags.lists_only = g.r.chance(2, 3);
    let n = g.r.range(1, 3);
    for i in 0..n {
        if i > 0 {
            maybe_evolve(g, p, 1, 5);
        }
        start_doc(g, true);
        for _ in 0..g.r.range(8, 30) {
            let (a, b) = (g.r.below(3) as u8, g.r.below(3) as u8);
            let w = g.which();
            match g.r.below(16) {
                0..=6 => {
                    let s = g.r.u64();
                    let n = if g.r.chance(1, 3) { 1 } else { g.r.range(2, 12) };
                    g.op(Op::Edit(a, s, n as u32));
                }
                7 | 8 => {
                    g.op(Op::Copy(a, b));
                    if g.r.chance(1, 2) {
                        let s = g.r.u64();
                        g.op(Op::Edit(b, s, 1));
                        g.op(Op::Cmp(a, b));
                    }
                }
                9..=11 => g.op(Op::Cmp(a, b)),
                12 => g.op(Op::SaveNb(0, a, 0)),
                13 => g.op(Op::Save(0, a, 0)),
                14 => g.op(Op::Load(0, w, b)),
                _ => {
                    g.op(Op::FSave(0, a, 0, true));
                    g.op(Op::FLoad(0, 0, b));
                    g.op(Op::Cmp(a, b));
                }
            }
        }
        g.op(Op::Drain);
        let v = p.schemas.len() as u32 - 1;
        push_inc(g, p, v);
    }
    g.verify(true, true);
    let v = p.schemas.len() as u32 - 1;
    push_inc(g, p, v);
}
