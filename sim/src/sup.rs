//! The supervisor: runs plans (one forked process per incarnation), searches
//! over seeds with several worker processes, minimises and replays failures.
use crate::exec::*;
use crate::plan::*;
use crate::rt::*;
use crate::ser::*;
use crate::ser_struct;
use crate::sys::*;
use crate::vfs::Vfs;
use std::collections::BTreeSet;

pub struct Shared {
    p: *mut u8,
    cap: usize,
}
impl Shared {
    pub fn new(cap: usize) -> Shared {
        let p = unsafe { libc::mmap(std::ptr::null_mut(), cap, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE, -1, 0) };
        assert!(p != libc::MAP_FAILED);
        Shared { p: p as *mut u8, cap }
    }
    fn put(&self, b: &[u8]) {
        unsafe {
            let n = b.len().min(self.cap - 8);
            std::ptr::copy_nonoverlapping(b.as_ptr(), self.p.add(8), n);
            *(self.p as *mut u64) = n as u64;
        }
    }
    fn clear(&self) {
        unsafe { *(self.p as *mut u64) = 0 }
    }
    fn take(&self) -> Option<Vec<u8>> {
        unsafe {
            let n = *(self.p as *mut u64) as usize;
            if n == 0 {
                None
            } else {
                Some(std::slice::from_raw_parts(self.p.add(8), n).to_vec())
            }
        }
    }
}
static mut OUT: Option<Shared> = None;
fn sink(o: &Outcome) -> ! {
    let b = o.to_bytes();
    unsafe { OUT.as_ref().unwrap().put(&b) };
    exit_now(0)
}

#[derive(Clone, Debug, Default)]
pub struct RunOut {
    pub viol: Option<(String, String)>,
    pub harness: Option<String>,
    pub traces: Vec<Vec<Dec>>,
    pub hash: u64,
    pub ilv: u64,
    pub disk: u64,
    pub points: u64,
    pub cnt: Counters,
    pub simtime: u64,
    pub log: Vec<String>,
    pub incs: u64,
    pub crashes: u64,
}

extern "C" fn on_signal(n: i32) {
    // what is interrupted may hold locks the report needs
    unsafe {
        BUSY = true;
        libc::signal(libc::SIGALRM, libc::SIG_DFL);
        libc::alarm(10);
    }
    let what = match n {
        libc::SIGXCPU => ("no-progress", "the process used up its processor time".to_string()),
        libc::SIGSEGV | libc::SIGBUS => ("abort", "the process died of a memory fault (or its stack overflowed)".to_string()),
        _ => ("abort", format!("the process died of signal {}", n)),
    };
    if active() {
        (rt().finish)(Status::Violation(what.0.into(), what.1));
    }
    exit_now(99)
}
extern "C" fn on_alarm(_: i32) {
    exit_now(98)
}
fn child_setup(verbose: bool) {
    unsafe {
        if !verbose {
            let fd = libc::open(b"/dev/null\0".as_ptr() as *const _, libc::O_WRONLY);
            libc::dup2(fd, 2);
            libc::close(fd);
        }
        let lim = |r, soft: u64, hard: u64| {
            let l = libc::rlimit { rlim_cur: soft, rlim_max: hard };
            libc::setrlimit(r, &l);
        };
        lim(libc::RLIMIT_CPU, 30, 32);
        lim(libc::RLIMIT_AS, 12 << 30, 12 << 30);
        lim(libc::RLIMIT_CORE, 0, 0);
        libc::signal(libc::SIGALRM, on_alarm as usize);
        libc::alarm(300);
        for s in [libc::SIGXCPU, libc::SIGSEGV, libc::SIGBUS, libc::SIGILL, libc::SIGFPE] {
            let mut a: libc::sigaction = std::mem::zeroed();
            a.sa_sigaction = on_signal as usize;
            a.sa_flags = libc::SA_ONSTACK;
            libc::sigaction(s, &a, std::ptr::null_mut());
        }
    }
}

pub fn run_plan(plan: &Plan, replay: Option<&[Vec<Dec>]>, log: bool) -> RunOut {
    let sh = unsafe { OUT.get_or_insert_with(|| Shared::new(256 << 20)) };
    let mut r = RunOut { hash: 1, ilv: 1, ..Default::default() };
    let mut world = World::default();
    let mut vfs = Vfs::new();
    let mut now = 0;
    let mut rt_off = 0;
    for i in 0..plan.incs.len() {
        sh.clear();
        let pid = unsafe { libc::fork() };
        if pid < 0 {
            r.harness = Some("fork failed".into());
            return r;
        }
        if pid == 0 {
            child_setup(std::env::var("SIM_STDERR").is_ok());
            let plan: &'static Plan = unsafe { std::mem::transmute(plan) };
            let rep = replay.map(|t| t.get(i).cloned().unwrap_or_default());
            run_inc(RunArgs { plan, inc: i, world, vfs, now, rt_off, replay: rep, log, sink });
        }
        let st = wait_for(pid);
        r.incs += 1;
        let o = match sh.take() {
            Some(b) => Outcome::from_bytes(&b),
            None if libc::WIFEXITED(st) && libc::WEXITSTATUS(st) == 98 => {
                r.harness = Some("a run did not end".into());
                return r;
            }
            None => {
                let how = if libc::WIFSIGNALED(st) { format!("signal {}", libc::WTERMSIG(st)) } else { format!("exit status {}", libc::WEXITSTATUS(st)) };
                r.viol = Some(("abort".into(), format!("the process died ({}) [incarnation {}]", how, i)));
                return r;
            }
        };
        r.hash = hmix(hmix(r.hash, o.hash), o.points);
        r.ilv = hmix(r.ilv, o.ilv);
        r.points += o.points;
        r.simtime += o.now - now;
        r.cnt.merge(&o.cnt);
        r.traces.push(o.trace);
        if log {
            r.log.push(format!("=== incarnation {} (source version {}, {:?})", i, plan.incs[i].ver, plan.incs[i].policy));
            r.log.extend(o.log);
        }
        world = o.world;
        vfs = o.vfs;
        now = o.now;
        rt_off = o.rt_off;
        r.disk = hmix(r.disk, vfs.digest());
        match o.status {
            Status::Done => {}
            Status::Crashed => r.crashes += 1,
            Status::Violation(k, d) => {
                r.viol = Some((k, d));
                return r;
            }
            Status::Harness(m) => {
                r.harness = Some(m);
                return r;
            }
        }
        // a crash also ends any shortage of disk space
        vfs.quota = u64::MAX;
    }
    r.hash = hmix(r.hash, r.disk);
    r
}

// ---------------------------------------------------------------- search
#[derive(Clone, Debug, Default)]
pub struct WOut {
    pub runs: u64,
    pub points: u64,
    pub switches: u64,
    pub simtime: u64,
    pub incs: u64,
    pub crashes: u64,
    pub ops: u64,
    pub cnt: Counters,
    /// (interleaving, final disk contents) of each non-trivial run
    pub ilvs: Vec<u64>,
    pub disks: Vec<u64>,
    pub nontrivial: Vec<u64>,
    pub viols: Vec<(u64, String, String)>,
    pub known: Counters,
    pub harness: Option<String>,
    pub samples: Vec<String>,
    pub longest: u64,
}
ser_struct!(WOut { runs, points, switches, simtime, incs, crashes, ops, cnt, ilvs, disks, nontrivial, viols, known, harness, samples, longest });

#[derive(Clone, Debug)]
pub struct Known {
    pub prop: String,
    pub kind: String,
    pub text: String,
    pub what: String,
}
/// known-findings lines: `finding: property=<id> kind=<kind> detail=<text contained in the report> :: <what fails>`
pub fn read_known(path: &str) -> Vec<Known> {
    let s = std::fs::read_to_string(path).unwrap_or_default();
    let mut v = vec![];
    for l in s.lines() {
        if let Some(r) = l.strip_prefix("finding: property=") {
            let (p, r) = r.split_once(" kind=").expect("bad finding line");
            let (k, t) = r.split_once(" detail=").expect("bad finding line");
            let (t, w) = t.split_once(" :: ").expect("bad finding line");
            v.push(Known { prop: p.into(), kind: k.into(), text: t.into(), what: w.into() });
        }
    }
    v
}

pub fn run_seed(master: u64, idx: u64) -> u64 {
    mix(mix(master, 0x5eed), idx)
}
fn describe(plan: &Plan, idx: u64, o: &RunOut) -> String {
    let f: Vec<String> = plan.incs.iter().flat_map(|i| i.ops.iter()).flat_map(|o| o.faults.iter()).map(|f| format!("{:?}", f)).collect();
    let ops: Vec<String> = plan.incs.iter().map(|i| format!("{} ops", i.ops.len())).collect();
    format!("run {}: seed {}, {} incarnations ({}), options {:?}, faults armed {:?}, {} points, {} switches, {} ms simulated", idx, plan.seed, plan.incs.len(), ops.join(", "), plan.opts, f, o.points, o.traces.iter().map(|t| t.len()).sum::<usize>(), o.simtime / 1_000_000)
}
/// Keeps this process and its children on one processor (the n-th it may use):
/// one thread runs at a time, and handing over is fastest on one processor.
pub fn pin(n: usize) {
    unsafe {
        let mut m: libc::cpu_set_t = std::mem::zeroed();
        let size = std::mem::size_of::<libc::cpu_set_t>();
        if libc::sched_getaffinity(0, size, &mut m) != 0 {
            return;
        }
        let all: Vec<usize> = (0..libc::CPU_SETSIZE as usize).filter(|c| libc::CPU_ISSET(*c, &m)).collect();
        if all.is_empty() {
            return;
        }
        let mut one: libc::cpu_set_t = std::mem::zeroed();
        libc::CPU_SET(all[n % all.len()], &mut one);
        PIN = Some((m, one));
        libc::sched_setaffinity(0, size, &one);
        let mut a: libc::sigaction = std::mem::zeroed();
        a.sa_sigaction = on_long as usize;
        libc::sigaction(libc::SIGALRM, &a, std::ptr::null_mut());
    }
}
static mut PIN: Option<(libc::cpu_set_t, libc::cpu_set_t)> = None;
extern "C" fn on_long(_: i32) {}
fn cpu_of_children() -> f64 {
    unsafe {
        let mut u: libc::rusage = std::mem::zeroed();
        libc::getrusage(libc::RUSAGE_CHILDREN, &mut u);
        let s = |t: libc::timeval| t.tv_sec as f64 + t.tv_usec as f64 / 1e6;
        s(u.ru_utime) + s(u.ru_stime)
    }
}
/// Waits for a run.  If it takes long, the processor may be needed by others, so
/// it may use all of them; so do the runs after it if it got too little time.
fn wait_for(pid: i32) -> i32 {
    let mut st = 0;
    let timer = |ms: i64| unsafe {
        let v = libc::timeval { tv_sec: ms / 1000, tv_usec: ms % 1000 * 1000 };
        let t = [v, v];
        libc::syscall(libc::SYS_setitimer, 0, t.as_ptr(), 0usize);
    };
    let set = |pid: i32, m: &libc::cpu_set_t| unsafe {
        libc::sched_setaffinity(pid, std::mem::size_of::<libc::cpu_set_t>(), m);
    };
    unsafe {
        let (t, c) = (real_now(), cpu_of_children());
        if PIN.is_some() {
            timer(1500);
        }
        let mut long = false;
        while libc::waitpid(pid, &mut st, 0) != pid {
            if let (Some((all, _)), false) = (&PIN, long) {
                long = true;
                for e in std::fs::read_dir(format!("/proc/{}/task", pid)).into_iter().flatten().flatten() {
                    if let Ok(t) = e.file_name().to_string_lossy().parse() {
                        set(t, all);
                    }
                }
            }
        }
        timer(0);
        if let (Some((all, _)), true) = (&PIN, long) {
            if cpu_of_children() - c < (real_now() - t) * 0.5 {
                set(0, all);
                PIN = None;
            }
        }
    }
    st
}
pub fn search(prop: &str, master: u64, secs: f64, jobs: usize, max_runs: u64, stop_first: bool, known: &[Known]) -> Vec<WOut> {
    let stop = Shared::new(4096);
    let shs: Vec<Shared> = (0..jobs).map(|_| Shared::new(128 << 20)).collect();
    let t0 = real_now();
    let mut pids = vec![];
    for j in 0..jobs {
        let pid = unsafe { libc::fork() };
        assert!(pid >= 0);
        if pid == 0 {
            pin(j);
            unsafe { OUT = Some(Shared::new(256 << 20)) };
            let mut w = WOut::default();
            let mut idx = j as u64;
            while real_now() - t0 < secs && idx < max_runs && stop.take().is_none() {
                let plan = gen_plan(prop, run_seed(master, idx));
                let t = real_now();
                let o = run_plan(&plan, None, false);
                if real_now() - t > 3.0 && std::env::var("SIM_SLOW").is_ok() {
                    eprintln!("run {} took {:.1} s, {} points", idx, real_now() - t, o.points);
                }
                w.longest = w.longest.max(((real_now() - t) * 1000.0) as u64);
                w.runs += 1;
                w.points += o.points;
                let sw = o.traces.iter().map(|t| t.len() as u64).sum::<u64>();
                w.switches += sw;
                w.simtime += o.simtime;
                w.incs += o.incs;
                w.crashes += o.crashes;
                w.ops += plan.incs.iter().map(|i| i.ops.len() as u64).sum::<u64>();
                w.cnt.merge(&o.cnt);
                w.ilvs.push(o.ilv);
                w.disks.push(o.disk);
                let judged: u64 = ["history_saves", "history_loads", "file_saves", "file_loads", "listings", "source_reads"].iter().map(|k| o.cnt.m.get(*k).copied().unwrap_or(0)).sum();
                if judged > 0 && (sw > 0 || o.cnt.m.keys().any(|k| k.starts_with("fault."))) {
                    w.nontrivial.push(o.hash);
                }
                if w.samples.len() < 2 && idx % 7 == 3 {
                    w.samples.push(describe(&plan, idx, &o));
                }
                if let Some(h) = o.harness {
                    w.harness = Some(format!("run {}: {}", idx, h));
                    stop.put(b"stop");
                }
                if let Some((k, d)) = o.viol {
                    if let Some(n) = known.iter().position(|n| n.prop == prop && n.kind == k && d.contains(&n.text)) {
                        w.known.add(&n.to_string(), 1);
                    } else {
                        w.viols.push((idx, k, d));
                        if stop_first {
                            stop.put(b"stop");
                        }
                    }
                }
                idx += jobs as u64;
            }
            shs[j].put(&w.to_bytes());
            exit_now(0);
        }
        pids.push(pid);
    }
    let mut res = vec![];
    for (j, p) in pids.into_iter().enumerate() {
        let mut st = 0;
        unsafe { libc::waitpid(p, &mut st, 0) };
        match shs[j].take() {
            Some(b) => res.push(WOut::from_bytes(&b)),
            None => res.push(WOut { harness: Some(format!("worker {} died ({})", j, st)), ..Default::default() }),
        }
    }
    for s in shs {
        unsafe { libc::munmap(s.p as *mut _, s.cap) };
    }
    res
}
pub fn total(ws: &[WOut]) -> (WOut, usize, usize, usize) {
    let mut t = WOut::default();
    let mut ilv: BTreeSet<u64> = BTreeSet::new();
    let mut disk: BTreeSet<u64> = BTreeSet::new();
    let mut nt: BTreeSet<u64> = BTreeSet::new();
    for w in ws {
        t.runs += w.runs;
        t.points += w.points;
        t.switches += w.switches;
        t.simtime += w.simtime;
        t.incs += w.incs;
        t.crashes += w.crashes;
        t.ops += w.ops;
        t.longest = t.longest.max(w.longest);
        t.cnt.merge(&w.cnt);
        t.known.merge(&w.known);
        t.viols.extend(w.viols.iter().cloned());
        t.samples.extend(w.samples.iter().cloned());
        ilv.extend(w.ilvs.iter());
        disk.extend(w.disks.iter());
        nt.extend(w.nontrivial.iter());
        if t.harness.is_none() {
            t.harness = w.harness.clone();
        }
    }
    t.viols.sort();
    (t, ilv.len(), disk.len(), nt.len())
}

// ---------------------------------------------------------------- minimisation
pub struct Min {
    pub plan: Plan,
    pub traces: Option<Vec<Vec<Dec>>>,
    pub kind: String,
    pub prop: String,
    pub known: Vec<Known>,
    pub deadline: f64,
    pub tried: u64,
}
impl Min {
    fn fails(&mut self, p: &Plan, t: Option<&[Vec<Dec>]>) -> Option<RunOut> {
        self.tried += 1;
        let o = run_plan(p, t, false);
        let hit = match &o.viol {
            Some((k, d)) => k == &self.kind && !self.known.iter().any(|n| n.prop == self.prop && &n.kind == k && d.contains(&n.text)),
            None => false,
        };
        if hit { Some(o) } else { None }
    }
    fn late(&self) -> bool {
        real_now() > self.deadline
    }
    fn accept(&mut self, p: Plan) -> bool {
        if self.late() {
            return false;
        }
        if self.fails(&p, None).is_some() {
            self.plan = p;
            true
        } else {
            false
        }
    }
    pub fn run(&mut self) {
        // whole incarnations, then chunks of operations, then single faults
        loop {
            let before = self.plan.to_bytes().len();
            let mut i = self.plan.incs.len();
            while i > 0 {
                i -= 1;
                if self.plan.incs.len() > 1 {
                    let mut p = self.plan.clone();
                    p.incs.remove(i);
                    self.accept(p);
                }
            }
            for i in (0..self.plan.incs.len()).rev() {
                let mut step = (self.plan.incs[i].ops.len() + 1) / 2;
                while step > 0 {
                    let mut at = self.plan.incs[i].ops.len();
                    while at > 0 {
                        let lo = at.saturating_sub(step);
                        let mut p = self.plan.clone();
                        p.incs[i].ops.drain(lo..at);
                        self.accept(p);
                        at = lo;
                        if self.late() {
                            return self.traces_too();
                        }
                    }
                    step /= 2;
                }
            }
            for i in 0..self.plan.incs.len() {
                for j in 0..self.plan.incs[i].ops.len() {
                    while !self.plan.incs[i].ops[j].faults.is_empty() {
                        let mut p = self.plan.clone();
                        p.incs[i].ops[j].faults.pop();
                        if !self.accept(p) {
                            break;
                        }
                    }
                    match self.plan.incs[i].ops[j].op.clone() {
                        Op::Edit(s, seed, n) if n > 1 => {
                            for m in [1, n / 2, n - 1] {
                                let mut p = self.plan.clone();
                                p.incs[i].ops[j].op = Op::Edit(s, seed, m);
                                if m < n && self.accept(p) {
                                    break;
                                }
                            }
                        }
                        Op::Par(ts) => {
                            for k in (0..ts.len()).rev() {
                                let mut p = self.plan.clone();
                                if let Op::Par(t) = &mut p.incs[i].ops[j].op {
                                    if t.len() > 1 && k < t.len() {
                                        t.remove(k);
                                        self.accept(p);
                                    }
                                }
                            }
                            for k in 0..ts.len() {
                                for l in (0..ts[k].len()).rev() {
                                    let mut p = self.plan.clone();
                                    if let Op::Par(t) = &mut p.incs[i].ops[j].op {
                                        if k < t.len() && l < t[k].len() {
                                            t[k].remove(l);
                                            self.accept(p);
                                        }
                                    }
                                }
                            }
                        }
                        Op::Repeat(os) => {
                            for k in (0..os.len()).rev() {
                                let mut p = self.plan.clone();
                                if let Op::Repeat(o) = &mut p.incs[i].ops[j].op {
                                    if o.len() > 1 {
                                        o.remove(k);
                                        self.accept(p);
                                    }
                                }
                            }
                        }
                        _ => {}
                    }
                    if self.late() {
                        return self.traces_too();
                    }
                }
                let mut p = self.plan.clone();
                if p.incs[i].policy.sys_every != 0 || p.incs[i].policy.atom_every != 0 || p.incs[i].policy.pct != 0 || p.incs[i].policy.stall_every != 0 {
                    let pol = &mut p.incs[i].policy;
                    let (seed, w) = (pol.seed, pol.workers);
                    *pol = Policy::calm(w);
                    pol.seed = seed;
                    self.accept(p);
                }
                let mut p = self.plan.clone();
                if p.incs[i].policy.workers > 1 {
                    p.incs[i].policy.workers = 1;
                    self.accept(p);
                }
                if self.plan.incs[i].arc {
                    let mut p = self.plan.clone();
                    p.incs[i].arc = false;
                    self.accept(p);
                }
            }
            if self.late() || self.plan.to_bytes().len() == before {
                break;
            }
        }
        self.traces_too()
    }
    /// Keeps only the scheduling decisions that matter.
    fn traces_too(&mut self) {
        let p = self.plan.clone();
        let full = match self.fails(&p, None) {
            Some(o) => o.traces,
            None => return,
        };
        if self.fails(&p, Some(&full)).is_none() {
            return; // keep the seeded schedule
        }
        let mut cur: Vec<(usize, Dec)> = full.iter().enumerate().flat_map(|(i, t)| t.iter().map(move |d| (i, d.clone()))).collect();
        let n = full.len();
        let build = |v: &[(usize, Dec)]| {
            let mut t = vec![vec![]; n];
            for (i, d) in v {
                t[*i].push(d.clone());
            }
            t
        };
        let mut step = cur.len().max(1);
        while step > 0 && !self.late() {
            let mut at = 0;
            while at < cur.len() && !self.late() {
                let hi = (at + step).min(cur.len());
                let mut c = cur.clone();
                c.drain(at..hi);
                let t = build(&c);
                if self.fails(&p, Some(&t)).is_some() {
                    cur = c;
                } else {
                    at = hi;
                }
            }
            step /= 2;
        }
        self.traces = Some(build(&cur));
    }
}

// ---------------------------------------------------------------- replay files
pub fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}
fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}
pub fn render(p: &Plan, traces: &Option<Vec<Vec<Dec>>>) -> Vec<String> {
    let mut v = vec![];
    for (i, s) in p.schemas.iter().enumerate() {
        if p.incs.iter().any(|x| x.ver as usize == i) || p.incs.iter().any(|x| x.ops.iter().any(|o| o.op == Op::EditSrc(i as u32))) {
            for (n, t) in s.files() {
                v.push(format!("source version {}: {}: {}", i, n, t));
            }
        }
    }
    v.push(format!("options: {:?}", p.opts));
    for (i, o) in p.vopts.iter().enumerate() {
        if *o != p.opts {
            v.push(format!("options with source version {}: {:?}", i + 1, o));
        }
    }
    for (i, x) in p.incs.iter().enumerate() {
        v.push(format!("incarnation {}: source version {}{}, {:?}", i, x.ver, if x.arc { " (from an archive)" } else { "" }, x.policy));
        for o in &x.ops {
            v.push(format!("  {:?}{}", o.op, if o.faults.is_empty() { String::new() } else { format!("  with faults {:?}", o.faults) }));
        }
        if let Some(t) = traces {
            if let Some(t) = t.get(i) {
                for d in t {
                    v.push(format!("  schedule: at point {} run thread {}{}", d.n, d.tid, if d.stall > 0 { format!(" (stall the running one {} ns)", d.stall) } else { String::new() }));
                }
            }
        }
    }
    v
}
pub struct ReplayFile {
    pub plan: Plan,
    pub traces: Option<Vec<Vec<Dec>>>,
    pub kind: String,
    pub detail: String,
    pub hash: u64,
}
pub fn write_replay(path: &str, r: &ReplayFile, log: &[String]) {
    let mut s = String::from("{\n");
    s += &format!(" \"property\": {},\n \"seed\": {},\n \"kind\": {},\n \"detail\": {},\n \"history_hash\": \"{:016x}\",\n", jstr(&r.plan.prop), r.plan.seed, jstr(&r.kind), jstr(&r.detail), r.hash);
    s += " \"run\": [\n";
    s += &render(&r.plan, &r.traces).iter().map(|l| format!("  {}", jstr(l))).collect::<Vec<_>>().join(",\n");
    s += "\n ],\n \"trace\": [\n";
    let skip = log.len().saturating_sub(400);
    s += &log[skip..].iter().map(|l| format!("  {}", jstr(l))).collect::<Vec<_>>().join(",\n");
    s += &format!("\n ],\n \"plan_hex\": \"{}\",\n \"schedule_hex\": \"{}\"\n}}\n", hex(&r.plan.to_bytes()), hex(&r.traces.to_bytes()));
    std::fs::write(path, s).unwrap();
}
pub fn read_replay(path: &str) -> ReplayFile {
    let s = std::fs::read_to_string(path).unwrap();
    let f = |k: &str| {
        let i = s.rfind(&format!("\"{}\": \"", k)).unwrap() + k.len() + 5;
        s[i..i + s[i..].find('"').unwrap()].to_string()
    };
    let kind = {
        let i = s.find("\"kind\": \"").unwrap() + 9;
        s[i..i + s[i..].find('"').unwrap()].to_string()
    };
    ReplayFile {
        plan: Plan::from_bytes(&unhex(&f("plan_hex"))),
        traces: Ser::from_bytes(&unhex(&f("schedule_hex"))),
        kind,
        detail: String::new(),
        hash: u64::from_str_radix(&f("history_hash"), 16).unwrap(),
    }
}
