//! The runtime of one incarnation: cooperative scheduler, virtual clock,
//! fault injection state and the event log.
//!
//! Exactly one thread holds the baton.  Every intercepted call is a *point*:
//! the scheduler may hand the baton to another runnable thread there.  All
//! simulator state is touched only by the baton holder.
use crate::sys::*;
use crate::vfs::Vfs;
use crate::{ser_enum, ser_struct};
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicU32, Ordering};

#[thread_local]
pub static mut TID: i32 = -1;
/// Set while simulator (or harness bookkeeping) code runs: no points then.
pub static mut BUSY: bool = false;
static mut RT: *mut Rt = std::ptr::null_mut();

#[derive(Clone, Debug, PartialEq)]
pub enum St {
    Run,
    Futex { addr: usize, bitset: u32, deadline: Option<u64> },
    Join(usize),
    Sleep(u64),
    Done,
}
pub struct Thr {
    pub st: St,
    pub baton: AtomicU32,
    pub timed_out: bool,
    pub prio: u64,
    pub pthread: u64,
}

/// How the PRNG scheduler behaves in one incarnation.
#[derive(Clone, Debug, PartialEq)]
pub struct Policy {
    pub seed: u64,
    /// mean number of system-call points between preemptions (0 = never)
    pub sys_every: u32,
    /// mean number of atomic points between preemptions (0 = never)
    pub atom_every: u32,
    /// priority based (PCT-like): number of priority change points; 0 = off
    pub pct: u32,
    /// mean number of system-call points between injected stalls (0 = never)
    pub stall_every: u32,
    /// rayon workers
    pub workers: u32,
}
ser_struct!(Policy { seed, sys_every, atom_every, pct, stall_every, workers });
impl Policy {
    pub fn calm(workers: u32) -> Policy {
        Policy { seed: 1, sys_every: 0, atom_every: 0, pct: 0, stall_every: 0, workers }
    }
}

/// One scheduling decision: at point `n` the baton went to thread `tid`
/// (or, with `stall`, the running thread was put to sleep for that long).
#[derive(Clone, Debug, PartialEq)]
pub struct Dec {
    pub n: u64,
    pub tid: u32,
    pub stall: u64,
}
ser_struct!(Dec { n, tid, stall });

#[derive(Clone, Debug, PartialEq)]
pub enum Act {
    Err(i32),
    /// transfer only this many per mille (at least 1 byte) of the data
    Short(u32),
    Eintr,
    CrashBefore,
    CrashAfter,
    /// write this many per mille of the data, then die
    CrashTorn(u32),
}
ser_enum!(Act { Err(e), Short(p), Eintr(), CrashBefore(), CrashAfter(), CrashTorn(p) });

pub const C_OPEN_R: u32 = 1;
pub const C_OPEN_W: u32 = 2;
pub const C_READ: u32 = 4;
pub const C_WRITE: u32 = 8;
pub const C_STAT: u32 = 16;
pub const C_DIR: u32 = 32; // opendir/readdir
pub const C_MKDIR: u32 = 64;
pub const C_UNLINK: u32 = 128; // unlink/rmdir
pub const C_RENAME: u32 = 256;
pub const C_CLOSE: u32 = 512;
pub const C_OTHER: u32 = 1024; // seek, truncate, sync
pub const C_ALL: u32 = 2047;
pub const CLASS_NAMES: [&str; 11] = ["open_r", "open_w", "read", "write", "stat", "readdir", "mkdir", "unlink", "rename", "close", "other"];

#[derive(Clone, Debug, PartialEq)]
pub struct Fault {
    pub mask: u32,
    /// restrict to paths containing this text ("" = any)
    pub path: String,
    /// skip this many matching calls first
    pub after: u32,
    /// then hit this many calls
    pub times: u32,
    pub act: Act,
}
ser_struct!(Fault { mask, path, after, times, act });

#[derive(Clone, Debug, Default)]
pub struct Counters {
    pub m: BTreeMap<String, u64>,
}
ser_struct!(Counters { m });
impl Counters {
    pub fn add(&mut self, k: &str, n: u64) {
        if let Some(x) = self.m.get_mut(k) {
            *x += n;
        } else {
            self.m.insert(k.to_string(), n);
        }
    }
    pub fn merge(&mut self, o: &Counters) {
        for (k, v) in &o.m {
            self.add(k, *v);
        }
    }
}

#[derive(Clone, Debug)]
pub enum Status {
    /// all operations of the incarnation were executed
    Done,
    Crashed,
    /// (kind, details)
    Violation(String, String),
    /// problem of the harness itself
    Harness(String),
}
ser_enum!(Status { Done(), Crashed(), Violation(k, d), Harness(d) });

pub struct Rt {
    pub thr: Vec<Box<Thr>>,
    pub cur: usize,
    pub now: u64,
    pub rt_off: i64,
    pub npoint: u64,
    since: u32,
    rng: Rng,
    pub aux: Rng,
    pub policy: Policy,
    next_sys: u64,
    next_atom: u64,
    next_stall: u64,
    sys_points: u64,
    atom_points: u64,
    pct_at: Vec<u64>,
    pub replay: Option<Vec<Dec>>,
    rp: usize,
    pub trace: Vec<Dec>,
    pub hash: u64,
    pub ilv: u64,
    pub log: Option<Vec<String>>,
    pub vfs: Vfs,
    pub armed: Vec<Fault>,
    pub crash_after: bool,
    pub fs_calls: u64,
    pub mut_calls: u64,
    pub opened: Vec<String>,
    pub cnt: Counters,
    pub max_points: u64,
    pub finish: fn(Status) -> !,
    pub panics: Vec<String>,
    pub fired: u64,
    /// of these, calls that examine a file
    pub fired_stat: u64,
    /// a file could not be removed
    pub kept: bool,
}

pub const REAL_BASE: i64 = 1_700_000_000;

pub fn rt() -> &'static mut Rt {
    unsafe { &mut *RT }
}
#[inline]
pub fn active() -> bool {
    unsafe { !RT.is_null() && TID >= 0 }
}
#[inline]
pub fn live() -> bool {
    unsafe { active() && !BUSY }
}
/// Runs harness bookkeeping without scheduling points or faults.
pub fn quiet<T>(f: impl FnOnce() -> T) -> T {
    unsafe {
        let old = BUSY;
        BUSY = true;
        let r = f();
        BUSY = old;
        r
    }
}

pub struct StartArgs {
    pub policy: Policy,
    pub replay: Option<Vec<Dec>>,
    pub vfs: Vfs,
    pub now: u64,
    pub rt_off: i64,
    pub log: bool,
    pub finish: fn(Status) -> !,
}
/// Turns the calling (only) thread into simulated thread 0.
pub fn start(a: StartArgs) {
    let mut rng = Rng::new(mix(a.policy.seed, 0x5ced));
    let mut r = Box::new(Rt {
        thr: vec![],
        cur: 0,
        now: a.now,
        rt_off: a.rt_off,
        npoint: 0,
        since: 0,
        aux: Rng::new(mix(a.policy.seed, 0xa0c5)),
        next_sys: 0,
        next_atom: 0,
        next_stall: 0,
        sys_points: 0,
        atom_points: 0,
        pct_at: vec![],
        replay: a.replay,
        rp: 0,
        trace: vec![],
        hash: 1,
        ilv: 1,
        log: if a.log { Some(vec![]) } else { None },
        vfs: a.vfs,
        armed: vec![],
        crash_after: false,
        fs_calls: 0,
        mut_calls: 0,
        opened: vec![],
        cnt: Counters::default(),
        max_points: CALL_POINTS,
        finish: a.finish,
        panics: vec![],
        fired: 0,
        fired_stat: 0,
        kept: false,
        policy: a.policy,
        rng: Rng::new(0),
    });
    if r.policy.pct > 0 {
        for _ in 0..r.policy.pct {
            // change points spread log-uniformly over the run
            let e = rng.range(3, 14) as u32;
            r.pct_at.push((1u64 << e) + rng.below(1 << e) as u64);
        }
    }
    r.rng = rng;
    r.next_sys = r.gap(r.policy.sys_every);
    r.next_atom = r.gap(r.policy.atom_every);
    r.next_stall = r.gap(r.policy.stall_every);
    let p = r.rng.u64() >> 1;
    r.thr.push(Box::new(Thr { st: St::Run, baton: AtomicU32::new(0), timed_out: false, prio: p, pthread: 0 }));
    unsafe {
        RT = Box::into_raw(r);
        TID = 0;
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum K {
    Sys,
    Atomic,
    Yield,
}

impl Rt {
    fn gap(&mut self, every: u32) -> u64 {
        if every == 0 {
            return u64::MAX;
        }
        // uniform on 1..=2*every-1: mean `every`, cheap, no long tail needed
        1 + self.rng.below((2 * every - 1) as usize) as u64
    }
    pub fn realtime(&self) -> i64 {
        REAL_BASE * 1_000_000_000 + self.now as i64 + self.rt_off
    }
    pub fn event(&mut self, kind: u64, a: u64, b: u64) {
        self.hash = hmix(hmix(hmix(self.hash, kind), a), b ^ ((self.cur as u64) << 48));
    }
    pub fn logf(&mut self, f: impl FnOnce() -> String) {
        let cur = self.cur;
        let n = self.npoint;
        if let Some(l) = &mut self.log {
            if l.len() < 200_000 {
                l.push(format!("[{:>6}] t{} {}", n, cur, f()));
            }
        }
    }
    fn wake_timers(&mut self) {
        let now = self.now;
        for t in self.thr.iter_mut() {
            match &t.st {
                St::Sleep(d) if *d <= now => t.st = St::Run,
                St::Futex { deadline: Some(d), .. } if *d <= now => {
                    t.st = St::Run;
                    t.timed_out = true;
                }
                _ => {}
            }
        }
    }
    fn runnable(&self, except: usize) -> Vec<usize> {
        (0..self.thr.len()).filter(|i| *i != except && self.thr[*i].st == St::Run).collect()
    }
    fn pick(&mut self, c: &[usize]) -> usize {
        if self.policy.pct > 0 {
            *c.iter().max_by_key(|i| self.thr[**i].prio).unwrap()
        } else {
            c[self.rng.below(c.len())]
        }
    }
    /// default choice when nothing is recorded: the next thread in round-robin order
    fn default_pick(&self, c: &[usize]) -> usize {
        *c.iter().find(|i| **i > self.cur).unwrap_or(&c[0])
    }
    /// Decide at a voluntary point. Returns the thread to run and an optional stall of the current one.
    fn decide(&mut self, k: K) -> (usize, u64) {
        let cur = self.cur;
        let c = self.runnable(cur);
        self.since += 1;
        if let Some(r) = &self.replay {
            let mut res = (cur, 0);
            if self.rp < r.len() && r[self.rp].n == self.npoint {
                let d = r[self.rp].clone();
                self.rp += 1;
                let t = d.tid as usize;
                if d.stall > 0 && (t == cur || (t < self.thr.len() && self.thr[t].st == St::Run)) {
                    res = (t, d.stall);
                } else if t < self.thr.len() && self.thr[t].st == St::Run {
                    res = (t, 0);
                }
                return res;
            }
            while self.rp < r.len() && r[self.rp].n < self.npoint {
                self.rp += 1;
            }
            if !c.is_empty() && (k == K::Yield || self.since > 4000) {
                res = (self.default_pick(&c), 0);
            }
            return res;
        }
        match k {
            K::Sys => self.sys_points += 1,
            K::Atomic => self.atom_points += 1,
            K::Yield => {}
        }
        if self.policy.stall_every > 0 && k == K::Sys && self.sys_points >= self.next_stall {
            let g = self.gap(self.policy.stall_every);
            self.next_stall = self.sys_points + g;
            if !c.is_empty() {
                let e = self.rng.range(10, 33);
                let t = self.pick(&c);
                return (t, 1u64 << e);
            }
        }
        if c.is_empty() {
            return (cur, 0);
        }
        if self.policy.pct > 0 {
            if self.pct_at.contains(&self.npoint) || k == K::Yield || self.since > 4000 {
                // drop below everybody
                let m = self.thr.iter().map(|t| t.prio).min().unwrap_or(1);
                self.thr[cur].prio = m.saturating_sub(1);
                if self.thr[cur].prio == 0 {
                    for t in self.thr.iter_mut() {
                        t.prio = t.prio.saturating_add(1 << 20);
                    }
                }
            }
            let mut all = c.clone();
            all.push(cur);
            return (self.pick(&all), 0);
        }
        if k == K::Yield || self.since > 4000 {
            return (self.pick(&c), 0);
        }
        if self.policy.sys_every > 0 && k == K::Sys && self.sys_points >= self.next_sys {
            let g = self.gap(self.policy.sys_every);
            self.next_sys = self.sys_points + g;
            return (self.pick(&c), 0);
        }
        if self.policy.atom_every > 0 && k == K::Atomic && self.atom_points >= self.next_atom {
            let g = self.gap(self.policy.atom_every);
            self.next_atom = self.atom_points + g;
            return (self.pick(&c), 0);
        }
        (cur, 0)
    }
    fn record(&mut self, to: usize, stall: u64) {
        self.trace.push(Dec { n: self.npoint, tid: to as u32, stall });
        self.since = 0;
        self.ilv = hmix(hmix(self.ilv, self.cur as u64), to as u64 ^ (self.npoint << 8));
        self.event(0x51, to as u64, stall);
    }
}

/// Hands the baton to `next` and waits until it comes back. BUSY must be set by the caller.
unsafe fn hand_over(me: usize, next: usize) {
    let r = rt();
    r.cur = next;
    let mine: *const AtomicU32 = &r.thr[me].baton;
    let other: *const AtomicU32 = &r.thr[next].baton;
    BUSY = false;
    (*other).store(1, Ordering::SeqCst);
    futex_wake(other as *const u32);
    while (*mine).swap(0, Ordering::SeqCst) == 0 {
        futex_wait(mine as *const u32, 0);
    }
    BUSY = true;
}
/// Gives the baton away for good (thread end).
unsafe fn give_away(next: usize) {
    let r = rt();
    r.cur = next;
    let other: *const AtomicU32 = &r.thr[next].baton;
    BUSY = false;
    (*other).store(1, Ordering::SeqCst);
    futex_wake(other as *const u32);
}

fn pick_forced() -> usize {
    let r = rt();
    loop {
        r.wake_timers();
        let c = r.runnable(usize::MAX);
        if !c.is_empty() {
            if let Some(rep) = &r.replay {
                while r.rp < rep.len() && rep[r.rp].n < r.npoint {
                    r.rp += 1;
                }
                if r.rp < rep.len() && rep[r.rp].n == r.npoint {
                    let t = rep[r.rp].tid as usize;
                    r.rp += 1;
                    if c.contains(&t) {
                        return t;
                    }
                }
                return r.default_pick(&c);
            }
            return r.pick(&c);
        }
        let next = r.thr.iter().filter_map(|t| match &t.st {
            St::Sleep(d) => Some(*d),
            St::Futex { deadline: Some(d), .. } => Some(*d),
            _ => None,
        }).min();
        match next {
            Some(d) => r.now = r.now.max(d),
            None => {
                let s: Vec<String> = r.thr.iter().enumerate().map(|(i, t)| format!("t{}:{:?}", i, t.st)).collect();
                let _ = s;
                let nb = r.thr.iter().filter(|t| t.st != St::Done).count();
                (r.finish)(Status::Violation("deadlock".into(), format!("all {} live threads are blocked forever", nb)));
            }
        }
    }
}

/// no call of the library needs as many scheduling points
pub const CALL_POINTS: u64 = 20_000_000;
fn check_budget() {
    let r = rt();
    if r.npoint > r.max_points {
        (r.finish)(Status::Violation("no-progress".into(), format!("a call is still running after {} scheduling points", CALL_POINTS)));
    }
}

/// A voluntary scheduling point.
pub fn point(k: K) {
    unsafe {
        if !live() {
            return;
        }
        BUSY = true;
        let r = rt();
        r.npoint += 1;
        r.now += if k == K::Atomic { 20 } else { 1500 };
        check_budget();
        if k != K::Atomic || r.npoint & 63 == 0 {
            r.wake_timers();
        }
        let me = r.cur;
        let (next, stall) = r.decide(k);
        if stall > 0 && next != me {
            r.cnt.add("fault.stall", 1);
            r.logf(|| format!("stalled for {} ns, run t{}", stall, next));
            r.record(next, stall);
            r.thr[me].st = St::Sleep(r.now + stall);
            hand_over(me, next);
        } else if next != me {
            r.logf(|| format!("{:?} switch -> t{}", k, next));
            r.record(next, 0);
            hand_over(me, next);
        }
        BUSY = false;
    }
}

/// Blocks the current thread in state `st`; returns true if it was a timeout.
unsafe fn block(st: St) -> bool {
    let r = rt();
    r.npoint += 1;
    check_budget();
    let me = r.cur;
    r.thr[me].timed_out = false;
    r.thr[me].st = st;
    let next = pick_forced();
    r.trace.push(Dec { n: r.npoint, tid: next as u32, stall: 0 });
    if next != me {
        r.since = 0;
        r.ilv = hmix(hmix(r.ilv, me as u64), next as u64 ^ 0x77);
        r.event(0x52, next as u64, 0);
        r.logf(|| format!("block -> t{}", next));
        hand_over(me, next);
    }
    rt().thr[me].timed_out
}

pub unsafe fn futex_wait_sim(addr: *const u32, val: u32, bitset: u32, deadline: Option<u64>) -> i32 {
    point(K::Sys);
    BUSY = true;
    let cur = (*(addr as *const AtomicU32)).load(Ordering::SeqCst);
    let res = if cur != val {
        libc::EAGAIN
    } else if block(St::Futex { addr: addr as usize, bitset, deadline }) {
        libc::ETIMEDOUT
    } else {
        0
    };
    BUSY = false;
    res
}
pub unsafe fn futex_wake_sim(addr: *const u32, n: u32, bitset: u32) -> i64 {
    point(K::Sys);
    BUSY = true;
    let r = rt();
    let mut w: Vec<usize> = (0..r.thr.len()).filter(|i| matches!(&r.thr[*i].st, St::Futex{addr:a, bitset:b, ..} if *a == addr as usize && (*b & bitset) != 0)).collect();
    let mut woken = 0;
    while woken < n as i64 && !w.is_empty() {
        let t = w.remove(0);
        r.thr[t].st = St::Run;
        woken += 1;
    }
    BUSY = false;
    woken
}
pub fn sleep_sim(ns: u64) {
    unsafe {
        point(K::Sys);
        BUSY = true;
        let d = rt().now + ns.max(1);
        block(St::Sleep(d));
        BUSY = false;
    }
}

// ---- threads ----
struct StartInfo {
    tid: usize,
    baton: *const AtomicU32,
    f: extern "C" fn(*mut libc::c_void) -> *mut libc::c_void,
    arg: *mut libc::c_void,
}
static mut KEY: libc::pthread_key_t = 0;
static mut KEY_MADE: bool = false;

unsafe extern "C" fn thread_end(_: *mut libc::c_void) {
    // runs after the thread's TLS destructors, still holding the baton
    BUSY = true;
    let r = rt();
    let me = r.cur;
    r.npoint += 1;
    r.thr[me].st = St::Done;
    for t in r.thr.iter_mut() {
        if t.st == St::Join(me) {
            t.st = St::Run;
        }
    }
    let next = pick_forced();
    r.trace.push(Dec { n: r.npoint, tid: next as u32, stall: 0 });
    r.event(0x53, next as u64, 0);
    r.logf(|| format!("thread end -> t{}", next));
    TID = -1;
    give_away(next);
}
extern "C" fn trampoline(p: *mut libc::c_void) -> *mut libc::c_void {
    unsafe {
        let info = Box::from_raw(p as *mut StartInfo);
        let tid = info.tid;
        let (f, arg) = (info.f, info.arg);
        // wait for the baton before touching anything shared
        let mine = info.baton;
        while (*mine).swap(0, Ordering::SeqCst) == 0 {
            futex_wait(mine as *const u32, 0);
        }
        BUSY = true;
        TID = tid as i32;
        libc::pthread_setspecific(KEY, 1 as *const _);
        std::mem::forget(info);
        BUSY = false;
        f(arg)
    }
}
type CreateFn = unsafe extern "C" fn(*mut libc::pthread_t, *const libc::pthread_attr_t, extern "C" fn(*mut libc::c_void) -> *mut libc::c_void, *mut libc::c_void) -> i32;

pub unsafe fn thread_create(th: *mut libc::pthread_t, attr: *const libc::pthread_attr_t, f: extern "C" fn(*mut libc::c_void) -> *mut libc::c_void, arg: *mut libc::c_void) -> i32 {
    let real: CreateFn = std::mem::transmute(libc::dlsym(libc::RTLD_NEXT, b"pthread_create\0".as_ptr() as *const _));
    if !live() {
        return real(th, attr, f, arg);
    }
    point(K::Sys);
    BUSY = true;
    if !KEY_MADE {
        libc::pthread_key_create(&mut KEY, Some(thread_end));
        KEY_MADE = true;
    }
    let r = rt();
    let tid = r.thr.len();
    let prio = r.rng.u64() >> 1;
    r.thr.push(Box::new(Thr { st: St::Run, baton: AtomicU32::new(0), timed_out: false, prio, pthread: 0 }));
    let baton: *const AtomicU32 = &r.thr[tid].baton;
    let info = Box::into_raw(Box::new(StartInfo { tid, baton, f, arg }));
    let rc = real(th, attr, trampoline, info as *mut _);
    if rc != 0 {
        (r.finish)(Status::Harness(format!("real pthread_create failed: {}", rc)));
    }
    r.thr[tid].pthread = *th as u64;
    r.event(0x54, tid as u64, 0);
    r.logf(|| format!("create t{}", tid));
    BUSY = false;
    point(K::Sys);
    0
}
pub unsafe fn thread_join(th: libc::pthread_t, ret: *mut *mut libc::c_void) -> i32 {
    type JoinFn = unsafe extern "C" fn(libc::pthread_t, *mut *mut libc::c_void) -> i32;
    let real: JoinFn = std::mem::transmute(libc::dlsym(libc::RTLD_NEXT, b"pthread_join\0".as_ptr() as *const _));
    if live() {
        point(K::Sys);
        BUSY = true;
        let r = rt();
        // pthread_t values are reused after a join: take the latest thread with this handle
        if let Some(t) = (0..r.thr.len()).rev().find(|i| r.thr[*i].pthread == th as u64) {
            if r.thr[t].st != St::Done {
                block(St::Join(t));
            }
        }
        BUSY = false;
    }
    real(th, ret)
}

// ---- faults ----
pub fn crash() -> ! {
    unsafe { BUSY = true };
    let r = rt();
    r.cnt.add("fault.crash", 1);
    r.logf(|| "CRASH".into());
    (r.finish)(Status::Crashed)
}

/// Start of a simulated file-system call: scheduling point, then fault decision.
pub fn fs_enter(class: u32, path: &str) -> Option<Act> {
    point(K::Sys);
    unsafe { BUSY = true };
    let r = rt();
    r.fs_calls += 1;
    if class & (C_OPEN_W | C_WRITE | C_MKDIR | C_UNLINK | C_RENAME) != 0 {
        r.mut_calls += 1;
    }
    r.event(0x60 + class as u64, fnv(3, path.as_bytes()), r.fs_calls);
    let mut fire = None;
    for f in r.armed.iter_mut() {
        if f.mask & class == 0 || f.times == 0 || (!f.path.is_empty() && !path.contains(&f.path)) {
            continue;
        }
        if f.after > 0 {
            f.after -= 1;
            continue;
        }
        if fire.is_none() {
            f.times -= 1;
            fire = Some(f.act.clone());
        }
    }
    r.armed.retain(|f| f.times > 0);
    if let Some(a) = &fire {
        let cls = CLASS_NAMES[class.trailing_zeros() as usize];
        let name = match a {
            Act::Err(e) => format!("fault.{}.{}", errname(*e), cls),
            Act::Short(_) => format!("fault.short.{}", cls),
            Act::Eintr => format!("fault.EINTR.{}", cls),
            Act::CrashBefore => format!("fault.crash_before.{}", cls),
            Act::CrashAfter => format!("fault.crash_after.{}", cls),
            Act::CrashTorn(_) => format!("fault.crash_torn.{}", cls),
        };
        // a read that gives only a part of the data is no failure
        if !(class == C_READ && matches!(a, Act::Short(_))) {
            r.fired += 1;
            r.fired_stat += (class == C_STAT) as u64;
        }
        r.kept |= class == C_UNLINK;
        r.cnt.add(&name, 1);
        r.logf(|| format!("INJECT {} at {}", name, path));
        match a {
            Act::CrashBefore => crash(),
            Act::CrashAfter => r.crash_after = true,
            _ => {}
        }
    }
    fire
}
pub fn fs_leave() {
    let r = rt();
    if r.crash_after {
        crash();
    }
    unsafe { BUSY = false };
}
pub fn errname(e: i32) -> &'static str {
    match e {
        libc::EIO => "EIO",
        libc::ENOSPC => "ENOSPC",
        libc::EACCES => "EACCES",
        libc::EMFILE => "EMFILE",
        libc::EINTR => "EINTR",
        libc::EROFS => "EROFS",
        libc::ENOMEM => "ENOMEM",
        _ => "ERR",
    }
}
