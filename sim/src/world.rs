//! The simulated world: scheduler, processes, clock, file system and network.
//!
//! Exactly one actor thread holds the baton and runs; every simulated call is a scheduling point at which
//! the seeded choice source decides who continues, whether a fault fires and whether somebody dies.
use crate::core::*;
use crate::ev;
use libc::{c_char, c_int};
use std::collections::BTreeMap;
use std::ffi::CString;
use std::sync::atomic::{AtomicBool, AtomicU32, Ordering};

pub const FD_BASE: c_int = 1 << 20;
type R = Result<usize, c_int>;

// ------------------------------------------------------------------------------------------------
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum St {
    Ready,
    Sleep(u64),
    Futex(usize, u64), // address, deadline (u64::MAX = none)
    Join(usize),
    Done,
}
struct Actor {
    proc: usize,
    st: St,
    timed_out: bool,
    parker: &'static AtomicU32,
    tid: usize,
    requests: u64,
}
pub struct Proc {
    pub pid: i32,
    env: BTreeMap<Vec<u8>, CString>,
    pw_home: Option<Vec<u8>>,
    pub dead: bool,
    skew: i64,
    rnd: u64,
    fds: BTreeMap<c_int, Open>,
    pub requests: u64,
    pub mutations: u64,
    pub killable: bool,
    zombie_calls: u64,
}
#[derive(Clone)]
struct Open {
    ino: usize,
    /// The open file description (position, locks), which duplicated descriptors share.
    ofd: usize,
    rd: bool,
    wr: bool,
    append: bool,
    wrote: bool,
    /// What it was opened as (for directories).
    path: Vec<u8>,
}
#[derive(Clone, Copy)]
pub struct Stat {
    pub mode: u32,
    pub size: usize,
    pub ino: u64,
    pub mtime: i64,
    pub mtime_ns: i64,
}
enum Pend {
    Write(usize, Vec<u8>),
    Trunc(usize),
}
struct Inode {
    dir: bool,
    /// Where a symbolic link leads.
    target: Option<Vec<u8>>,
    ro: bool,
    data: Vec<u8>,
    durable: Vec<u8>,
    pend: Vec<Pend>,
    /// Nanoseconds since the epoch by the simulated clock.
    mtime: i64,
    /// Advisory locks: (open file description, exclusive).
    locks: Vec<(usize, bool)>,
}
enum DirOp {
    Link(Vec<u8>, usize),
    Unlink(Vec<u8>),
    Rename(Vec<u8>, Vec<u8>),
}
pub struct Fs {
    inodes: Vec<Inode>,
    names: BTreeMap<Vec<u8>, usize>,
    dnames: BTreeMap<Vec<u8>, usize>,
    dpend: Vec<DirOp>,
    pub capacity: usize,
    pub version: u64,
    has_links: bool,
}

/// Per-run fault rates, in thousandths per opportunity (swarm style: most are zero in most runs).
#[derive(Default, Clone, Debug)]
pub struct Rates {
    pub open_err: usize,
    pub read_err: usize,
    pub write_err: usize,
    pub enospc: usize,
    pub eintr: usize,
    pub short_read: usize,
    pub short_write: usize,
    pub rename_err: usize,
    pub unlink_err: usize,
    pub stat_err: usize,
    pub fsync_err: usize,
    pub close_err: usize,
    pub kill: usize,
    pub power: usize,
    pub tamper_delete: usize,
    pub tamper_corrupt: usize,
    pub tamper_replace: usize,
    pub net_dns: usize,
    pub net_timeout: usize,
    pub net_error_page: usize,
    pub net_garbage: usize,
    pub net_trunc_err: usize,
    pub net_trunc_ok: usize,
    pub net_stale: usize,
    pub net_slow: usize,
    pub publish: usize,
    pub switch: usize,
    pub stdout_err: usize,
    pub stdout_short: usize,
}

pub struct Delivered {
    pub body: Vec<u8>,
    pub edition: Option<usize>,
}
struct Ticket {
    body: Vec<u8>,
    off: usize,
    fail_at: Option<usize>,
    edition: Option<usize>,
    rec: bool,
}
pub struct Net {
    pub editions: Vec<Vec<u8>>,
    pub current: usize,
    pub max_published: usize,
    pub up: bool,
    pub url: &'static str,
    pub requests: u64,
    tickets: Vec<Ticket>,
    pub delivered: Vec<Delivered>,
    pub garbage: Vec<Vec<u8>>,
}

pub struct World {
    actors: Vec<Actor>,
    pub procs: Vec<Proc>,
    pub fs: Fs,
    pub net: Net,
    pub rates: Rates,
    pub faults_on: bool,
    cur: Option<usize>,
    conductor: &'static AtomicU32,
    next_fd: c_int,
    /// Positions of the open file descriptions.
    pos: Vec<usize>,
    /// Directories on which another file system is mounted.
    pub mounts: Vec<Vec<u8>>,
    pub calls: u64,
    pub powered: bool,
    pub watch: Option<(Vec<u8>, fn(&World))>,
    pub home_hint: Vec<u8>,
    /// Complete documents that somebody else may put in place of the cache file.
    pub replacements: Vec<Vec<u8>>,
    threads: Vec<std::thread::JoinHandle<()>>,
    pub max_calls: u64,
    pub switches: u64,
    /// The file system is being changed by the world, not by a process.
    pub environment_change: bool,
}
static mut W: *mut World = std::ptr::null_mut();
#[allow(static_mut_refs)]
pub fn w() -> &'static mut World {
    unsafe { &mut *W }
}
static RANDOM_ON: AtomicBool = AtomicBool::new(false);
static ALLOC_YIELD: AtomicU32 = AtomicU32::new(0);
pub fn sim_random_on() -> bool {
    RANDOM_ON.load(Ordering::Relaxed)
}
static mut GLOBAL_RND: u64 = 0;
/// From here on every random byte asked for in this (forked) process comes from the run's choices.
pub fn start_random() {
    let s = pick(1 << 30) as u64;
    unsafe { GLOBAL_RND = s };
    RANDOM_ON.store(true, Ordering::SeqCst);
}
/// Reseeds the random bytes handed to threads started from now on (a "new process" for hash seeds).
pub fn reseed_random() {
    let s = pick(1 << 30) as u64;
    unsafe { GLOBAL_RND = s.wrapping_mul(0x1234_5677) };
}
pub fn random(b: &mut [u8]) {
    let s: *mut u64 = match ACTOR.get() {
        0 => &raw mut GLOBAL_RND,
        n => {
            let p = w().actors[n as usize - 1].proc;
            &mut w().procs[p].rnd
        }
    };
    for c in b.chunks_mut(8) {
        let v = splitmix(unsafe { &mut *s }).to_le_bytes();
        c.copy_from_slice(&v[..c.len()]);
    }
}

fn leak_parker() -> &'static AtomicU32 {
    Box::leak(Box::new(AtomicU32::new(0)))
}
fn park(p: &AtomicU32) {
    while p.swap(0, Ordering::Acquire) == 0 {
        unsafe {
            crate::seam::raw6(libc::SYS_futex, p as *const _ as usize, (libc::FUTEX_WAIT | libc::FUTEX_PRIVATE_FLAG) as usize, 0, 0, 0, 0);
        }
    }
}
fn unpark(p: &AtomicU32) {
    p.store(1, Ordering::Release);
    unsafe {
        crate::seam::raw6(libc::SYS_futex, p as *const _ as usize, (libc::FUTEX_WAKE | libc::FUTEX_PRIVATE_FLAG) as usize, 1, 0, 0, 0);
    }
}

impl World {
    pub fn install() -> &'static mut World {
        let mut fs = Fs { inodes: vec![], names: BTreeMap::new(), dnames: BTreeMap::new(), dpend: vec![], capacity: usize::MAX, version: 0, has_links: false };
        fs.setup_dir(b"/");
        let world = World {
            actors: vec![],
            procs: vec![],
            fs,
            net: Net { editions: vec![], current: 0, max_published: 0, up: true, url: "", requests: 0, tickets: vec![], delivered: vec![], garbage: vec![] },
            rates: Rates::default(),
            faults_on: true,
            cur: None,
            conductor: leak_parker(),
            next_fd: FD_BASE,
            pos: vec![],
            mounts: vec![],
            calls: 0,
            powered: true,
            watch: None,
            home_hint: vec![],
            replacements: vec![],
            threads: vec![],
            max_calls: 20_000,
            switches: 0,
            environment_change: false,
        };
        unsafe { W = Box::into_raw(Box::new(world)) };
        w()
    }
    pub fn new_proc(&mut self, env: &[(&str, Option<Vec<u8>>)], pw_home: Option<Vec<u8>>, killable: bool) -> usize {
        let id = self.procs.len();
        let mut m = BTreeMap::new();
        for (k, v) in env {
            if let Some(v) = v {
                m.insert(k.as_bytes().to_vec(), CString::new(v.clone()).unwrap());
            }
        }
        let rnd = (pick(1 << 30) as u64).wrapping_mul(0x9E37_79B9) ^ id as u64;
        let skew = match pick(6) {
            0..=3 => 0,
            4 => -(pick(2_000_000_000) as i64) * 1_000_000_000,
            _ => (pick(2_000_000_000) as i64) * 1_000_000_000,
        };
        if skew != 0 {
            fault("clock-skew");
        }
        // Process ids come round again, and in containers that share a home they are the same at one time.
        let pid = if id > 0 && pick(6) == 5 {
            fault("process-id-reused");
            self.procs[pick(id)].pid
        } else {
            1000 + id as i32
        };
        self.procs.push(Proc {
            pid,
            env: m,
            pw_home,
            dead: false,
            skew,
            rnd,
            fds: BTreeMap::new(),
            requests: 0,
            mutations: 0,
            killable,
            zombie_calls: 0,
        });
        id
    }
    /// Starts an actor thread in process `proc` after `delay` simulated nanoseconds.
    pub fn spawn(&mut self, proc: usize, delay: u64, f: impl FnOnce() + Send + 'static) -> usize {
        let id = self.actors.len();
        let parker = leak_parker();
        let st = if delay == 0 { St::Ready } else { St::Sleep(ctx().sim_ns + delay) };
        self.actors.push(Actor { proc, st, timed_out: false, parker, tid: 0, requests: 0 });
        let h = std::thread::Builder::new()
            .stack_size(1 << 20)
            .spawn(move || {
                park(parker);
                ACTOR.set(id as u32 + 1);
                crate::cov::start();
                let r = guard(f);
                if let Err(p) = r {
                    IN_SIM.set(true);
                    if !w().procs[w().actors[id].proc].dead {
                        stray_panic(&p);
                    }
                }
                thread_done(id);
            })
            .unwrap_or_else(|e| harness_error(&format!("cannot start a thread: {e}")));
        self.threads.push(h);
        id
    }
    /// Runs all actors until each has finished.
    pub fn run(&mut self) {
        match self.next_actor() {
            Some(n) => {
                unpark(self.actors[n].parker);
                park(self.conductor);
            }
            None => {}
        }
        self.threads.clear(); // finished (or, if killed and spinning, parked for good)
    }
    /// Picks who runs next; None when everybody has finished.
    fn next_actor(&mut self) -> Option<usize> {
        loop {
            let ready: Vec<usize> = (0..self.actors.len())
                .filter(|&i| match self.actors[i].st {
                    St::Ready => true,
                    St::Join(t) => self.actors[t].st == St::Done,
                    _ => false,
                })
                .collect();
            if !ready.is_empty() {
                let stay = self.cur.and_then(|c| ready.iter().position(|&r| r == c));
                let n = match (ready.len(), stay) {
                    (1, _) => ready[0],
                    (_, Some(p)) => {
                        if chance(self.rates.switch) {
                            let mut others = ready.clone();
                            others.remove(p);
                            *pick_ref(&others)
                        } else {
                            ready[p]
                        }
                    }
                    (_, None) => *pick_ref(&ready),
                };
                if self.cur != Some(n) {
                    self.switches += 1;
                    shape(0x1000 + n as u64);
                }
                self.cur = Some(n);
                self.actors[n].st = St::Ready;
                return Some(n);
            }
            // Nothing runnable: jump the clock to the next timer.
            let next = (0..self.actors.len())
                .filter_map(|i| match self.actors[i].st {
                    St::Sleep(t) => Some((t, i)),
                    St::Futex(_, t) if t != u64::MAX => Some((t, i)),
                    _ => None,
                })
                .min();
            match next {
                Some((t, i)) => {
                    let c = ctx();
                    c.sim_ns = c.sim_ns.max(t);
                    if let St::Futex(..) = self.actors[i].st {
                        self.actors[i].timed_out = true;
                    }
                    self.actors[i].st = St::Ready;
                }
                None => {
                    if self.actors.iter().all(|a| a.st == St::Done) {
                        self.cur = None;
                        return None;
                    }
                    violation("deadlock", &format!("no thread can make progress: {:?}", self.actors.iter().map(|a| a.st).collect::<Vec<_>>()));
                }
            }
        }
    }
    fn wake(&mut self, pred: impl Fn(&St) -> bool, max: usize) -> usize {
        let mut n = 0;
        for a in &mut self.actors {
            if n < max && pred(&a.st) {
                a.st = St::Ready;
                a.timed_out = false;
                n += 1;
            }
        }
        n
    }
    fn timers(&mut self) {
        let now = ctx().sim_ns;
        for a in &mut self.actors {
            match a.st {
                St::Sleep(t) if t <= now => a.st = St::Ready,
                St::Futex(_, t) if t <= now => {
                    a.st = St::Ready;
                    a.timed_out = true;
                }
                _ => {}
            }
        }
    }
    fn notify(&self) {
        if let Some((_, f)) = &self.watch {
            f(self)
        }
    }
}

/// Gives up the baton (the actor's state says why) and returns when it is handed back.
fn reschedule(me: usize) {
    let w = w();
    w.timers();
    match w.next_actor() {
        Some(n) if n == me => {}
        Some(n) => {
            let p = w.actors[me].parker;
            unpark(w.actors[n].parker);
            park(p);
        }
        None => {
            // only when `me` is Done
            unpark(w.conductor);
        }
    }
}
pub fn thread_done(me: usize) {
    IN_SIM.set(true);
    let w = w();
    w.actors[me].st = St::Done;
    w.timers();
    ACTOR.set(0);
    match w.next_actor() {
        Some(n) => unpark(w.actors[n].parker),
        None => unpark(w.conductor),
    }
}
pub fn thread_new(parent: usize) -> usize {
    let w = w();
    let id = w.actors.len();
    let proc = w.actors[parent].proc;
    w.actors.push(Actor { proc, st: St::Ready, timed_out: false, parker: leak_parker(), tid: 0, requests: 0 });
    probe("code under test started a thread");
    id
}
pub fn thread_id(actor: usize, tid: usize) {
    w().actors[actor].tid = tid;
}
pub fn thread_started(actor: usize) {
    park(w().actors[actor].parker);
    ACTOR.set(actor as u32 + 1);
    crate::cov::start();
}
pub fn join(me: usize, tid: usize) {
    let _g = SimGuard::new();
    let w = w();
    if let Some(t) = w.actors.iter().position(|a| a.tid == tid && tid != 0) {
        if w.actors[t].st != St::Done {
            w.actors[me].st = St::Join(t);
            reschedule(me);
        }
    }
}
pub fn yield_now(me: usize) {
    let _g = SimGuard::new();
    tick(200);
    reschedule(me);
}
pub fn sleep(me: usize, ns: u64) {
    let _g = SimGuard::new();
    if is_dead(me) {
        return;
    }
    w().actors[me].st = St::Sleep(ctx().sim_ns.saturating_add(ns));
    reschedule(me);
}
fn tick(ns: u64) {
    ctx().sim_ns += ns;
}
fn is_dead(me: usize) -> bool {
    let w = w();
    w.procs[w.actors[me].proc].dead
}
pub fn futex_wait(me: usize, addr: usize, val: u32, dl: Option<(u64, bool)>) -> R {
    let _g = SimGuard::new();
    let cur = unsafe { (*(addr as *const AtomicU32)).load(Ordering::SeqCst) };
    if cur != val {
        return Err(libc::EAGAIN);
    }
    probe("blocked on a futex");
    let t = match dl {
        None => u64::MAX,
        Some((t, true)) => ctx().sim_ns.saturating_add(t),
        Some((t, false)) => t,
    };
    let w = w();
    w.actors[me].st = St::Futex(addr, t);
    w.actors[me].timed_out = false;
    reschedule(me);
    if w.actors[me].timed_out { Err(libc::ETIMEDOUT) } else { Ok(0) }
}
pub fn futex_wake(me: usize, addr: usize, n: usize) -> R {
    let _g = SimGuard::new();
    let k = w().wake(|s| matches!(s, St::Futex(a, _) if *a == addr), n.min(1 << 20));
    if k > 0 {
        reschedule(me);
    }
    Ok(k)
}

pub fn preempt(me: usize) {
    reschedule(me);
}

// ---- allocation as a pre-emption point ----------------------------------------------------------
/// Pre-empt actors at allocations, on average every `n`th (0 = never).
pub fn alloc_yield(n: u32) {
    ALLOC_YIELD.store(n, Ordering::Relaxed);
    ALLOC_LEFT.store(1, Ordering::Relaxed);
}
static ALLOC_LEFT: AtomicU32 = AtomicU32::new(0);
#[inline]
pub fn alloc_point() {
    let n = ALLOC_YIELD.load(Ordering::Relaxed);
    if n == 0 || ACTOR.get() == 0 || IN_SIM.get() {
        return;
    }
    let left = ALLOC_LEFT.load(Ordering::Relaxed);
    if left > 1 {
        ALLOC_LEFT.store(left - 1, Ordering::Relaxed);
        return;
    }
    let _g = SimGuard::new();
    ALLOC_LEFT.store(1 + pick(2 * n as usize) as u32, Ordering::Relaxed);
    let me = ACTOR.get() as usize - 1;
    fault("preempted-at-allocation");
    reschedule(me);
}

// ---- every simulated call starts here -------------------------------------------------------------
/// Scheduling point; Err when the calling process is dead (its call then has no effect).
fn enter(me: usize, what: &'static str, ns: u64) -> Result<(), c_int> {
    let w = w();
    let p = w.actors[me].proc;
    if w.procs[p].dead {
        w.procs[p].zombie_calls += 1;
        if w.procs[p].zombie_calls > 10_000 {
            // A killed process cannot be allowed to spin for ever: leave its thread parked.
            w.actors[me].st = St::Done;
            w.cur = None;
            match w.next_actor() {
                Some(n) => unpark(w.actors[n].parker),
                None => unpark(w.conductor),
            }
            loop {
                park(leak_parker());
            }
        }
        return Err(libc::EIO);
    }
    w.calls += 1;
    if w.calls > w.max_calls {
        violation("livelock", &format!("more than {} system calls in one run (last: {what})", w.max_calls));
    }
    tick(ns);
    if w.faults_on {
        environment(environment_events);
        if w.procs[p].killable && chance(w.rates.kill) {
            kill(p, what);
            return Err(libc::EIO);
        }
        if w.rates.power > 0 && chance(w.rates.power) {
            environment(|| power_loss(what));
            if is_dead(me) {
                return Err(libc::EIO);
            }
        }
    }
    reschedule(me);
    let w = self::w();
    if w.procs[p].dead {
        return Err(libc::EIO);
    }
    shape(hash_bytes(p as u64, what.as_bytes()));
    Ok(())
}
fn kill(p: usize, at: &str) {
    let w = w();
    fault("process-kill");
    if at == "write" || at == "rename" || at == "fsync" || at == "close" {
        probe("killed while saving");
    }
    ev!("kill pid {} at {}", w.procs[p].pid, at);
    w.procs[p].dead = true;
    drop_fds(p);
    for a in &mut w.actors {
        if a.proc == p && a.st != St::Done {
            a.st = St::Ready; // runs on without any effect until its code returns
        }
    }
}
fn drop_fds(p: usize) {
    let w = w();
    let fds: Vec<c_int> = w.procs[p].fds.keys().copied().collect();
    for fd in fds {
        release_lock(p, fd);
        w.procs[p].fds.remove(&fd);
    }
}
/// Everything dies; only durable state survives (torn, lost and partial unsynced writes).
pub fn power_loss(at: &str) {
    let w = w();
    fault("power-loss");
    ev!("power loss at {at}");
    for p in 0..w.procs.len() {
        if !w.procs[p].dead {
            w.procs[p].dead = true;
            drop_fds(p);
        }
    }
    for a in &mut w.actors {
        if a.st != St::Done {
            a.st = St::Ready;
        }
    }
    let fs = &mut w.fs;
    let keep = pick(fs.dpend.len() + 1);
    if keep < fs.dpend.len() {
        fault("lost-directory-update");
    }
    // choice 0 must be the mildest: keep everything
    let keep = fs.dpend.len() - keep;
    let ops: Vec<DirOp> = fs.dpend.drain(..).collect();
    for o in ops.into_iter().take(keep) {
        apply_dir(&mut fs.dnames, o);
    }
    for i in 0..fs.inodes.len() {
        let ino = &mut fs.inodes[i];
        if ino.pend.is_empty() {
            continue;
        }
        let mode = pick(5);
        let full = ino.data.clone();
        match mode {
            0 => ino.durable = full,
            1 => fault("lost-unsynced-writes"),
            2 => {
                // a prefix of the operations, the last one torn at a sector
                fault("torn-write");
                let n = pick(ino.pend.len() + 1);
                let pend: Vec<Pend> = ino.pend.drain(..).collect();
                for (k, p) in pend.into_iter().enumerate() {
                    match p {
                        Pend::Trunc(l) if k < n => ino.durable.resize(l, 0),
                        Pend::Write(off, b) if k < n => put(&mut ino.durable, off, &b),
                        Pend::Write(off, b) if k == n => {
                            let s = [1usize, 64, 512, 4096][pick(4)];
                            let l = (pick(b.len() / s + 1) * s).min(b.len());
                            put(&mut ino.durable, off, &b[..l]);
                        }
                        _ => {}
                    }
                }
            }
            3 => {
                // the new size reached the disk, an arbitrary subset of pages did
                fault("partial-page-writeback");
                let page = [64usize, 512, 4096][pick(3)];
                ino.durable.resize(full.len(), 0);
                let mut o = 0;
                while o < full.len() {
                    let e = (o + page).min(full.len());
                    if pick(2) == 0 {
                        ino.durable[o..e].copy_from_slice(&full[o..e]);
                    }
                    o = e;
                }
            }
            _ => {
                // the new size reached the disk, the data did not
                fault("zero-filled-after-crash");
                ino.durable = vec![0; full.len()];
            }
        }
        ino.pend.clear();
    }
    fs.names = fs.dnames.clone();
    for i in &mut fs.inodes {
        i.data = i.durable.clone();
        i.pend.clear();
        i.locks.clear();
    }
    fs.version += 1;
    w.notify();
}
fn apply_dir(m: &mut BTreeMap<Vec<u8>, usize>, o: DirOp) {
    match o {
        DirOp::Link(p, i) => {
            m.insert(p, i);
        }
        DirOp::Unlink(p) => {
            m.remove(&p);
        }
        DirOp::Rename(a, b) => {
            if let Some(i) = m.remove(&a) {
                m.insert(b, i);
            }
        }
    }
}
fn put(v: &mut Vec<u8>, off: usize, b: &[u8]) {
    if v.len() < off + b.len() {
        v.resize(off + b.len(), 0);
    }
    v[off..off + b.len()].copy_from_slice(b);
}
/// Things that happen around the processes: a new edition is published, the user meddles with the cache.
fn environment_events() {
    let w = w();
    if w.rates.publish > 0 && w.net.current + 1 < w.net.editions.len() && chance(w.rates.publish) {
        publish();
    }
    if w.rates.tamper_delete > 0 && chance(w.rates.tamper_delete) {
        if let Some((p, _)) = w.watch.clone() {
            let p = w.fs.real_or(&p, false);
            if w.fs.names.remove(&p).is_some() {
                fault("cache-deleted-by-user");
                ev!("user deletes the cache file");
                w.fs.dpend.push(DirOp::Unlink(p));
                w.notify();
            }
        }
    }
    if w.rates.tamper_corrupt > 0 && chance(w.rates.tamper_corrupt) {
        let p = w.home_hint.clone();
        if let Some(d) = w.fs.content(&p).map(|d| d.to_vec()) {
            let d = corrupt(&d);
            fault("bit-rot");
            ev!("bit rot in the cache file ({} bytes)", d.len());
            // A new inode: who has the file open goes on reading the old contents, so that a document
            // torn by the environment in the middle of a read is never blamed on the reader.
            let at = w.fs.real_or(&p, true);
            w.fs.names.remove(&at);
            w.fs.setup_file(&at, &d);
            w.notify();
        }
    }
    if w.rates.tamper_replace > 0 && !w.replacements.is_empty() && chance(w.rates.tamper_replace) {
        replace_cache();
    }
}
/// Another program of the user (a newer version of it, say) renames a complete document over the cache file.
pub fn replace_cache() {
    let w = w();
    let p = w.home_hint.clone();
    if w.fs.content(&p).is_none() {
        return;
    }
    let i = pick(w.replacements.len());
    let d = w.replacements[i].clone();
    fault("cache-replaced-by-another-program");
    ev!("another program replaces the cache file ({} bytes)", d.len());
    let ro = w.fs.inodes[w.fs.names[&w.fs.real_or(&p, true)]].ro;
    let at = w.fs.real_or(&p, false);
    w.fs.names.remove(&at);
    w.fs.setup_file(&at, &d);
    w.fs.set_ro(&at, ro);
    w.notify();
}
/// Runs something that changes the file system from outside the processes.
pub fn environment<T>(f: impl FnOnce() -> T) -> T {
    let old = std::mem::replace(&mut w().environment_change, true);
    let r = f();
    w().environment_change = old;
    r
}
/// Requests made so far by the current actor.
pub fn actor_requests() -> u64 {
    match ACTOR.get() {
        0 => 0,
        n => w().actors[n as usize - 1].requests,
    }
}
pub fn publish() {
    let w = w();
    w.net.current += 1;
    w.net.max_published = w.net.max_published.max(w.net.current);
    fault("new-edition-published");
    ev!("server publishes edition {}", w.net.current);
}
/// Damages stored or transmitted text.
pub fn corrupt(d: &[u8]) -> Vec<u8> {
    let mut d = d.to_vec();
    for _ in 0..=pick(3) {
        if d.is_empty() {
            d.push(pick(256) as u8);
            continue;
        }
        let i = pick(d.len());
        match pick(10) {
            8 => d[i] = *pick_ref(b"\x80\xff\xc3\xe2\xf0\xed"),
            9 => {
                // whole characters of two to four bytes
                let c = *pick_ref(&["\u{e9}", "\u{2019}", "\u{1f514}", "\u{feff}"]);
                d.splice(i..i, c.bytes());
            }
            0 => d.truncate(i),
            1 => d[i] ^= 1 << pick(8),
            2 => d[i] = *pick_ref(b"0123456789-\"{}[],:ntrue\0\xff "),
            3 => {
                d.remove(i);
            }
            4 => d.insert(i, *pick_ref(b"0123456789-\"{}[],:e.\0\x80 ")),
            5 => {
                let j = (i + pick(40)).min(d.len());
                let piece = d[i..j].to_vec();
                let k = pick(d.len() + 1);
                d.splice(k..k, piece);
            }
            6 => {
                let j = (i + 1 + pick(64)).min(d.len());
                for b in &mut d[i..j] {
                    *b = 0;
                }
            }
            _ => {
                let j = (i + 1 + pick(16)).min(d.len());
                d.drain(i..j);
            }
        }
    }
    d
}
fn inject(rate: fn(&Rates) -> usize, kind: &'static str) -> bool {
    let w = w();
    if w.faults_on && rate(&w.rates) > 0 && chance(rate(&w.rates)) {
        fault(kind);
        ev!("inject {kind}");
        true
    } else {
        false
    }
}

// ---- file system ----------------------------------------------------------------------------------
fn norm(p: &[u8]) -> Vec<u8> {
    let mut out: Vec<&[u8]> = vec![];
    let full: Vec<u8> = if p.first() == Some(&b'/') { p.to_vec() } else { [b"/cwd/", p].concat() };
    for c in full.split(|b| *b == b'/') {
        match c {
            b"" | b"." => {}
            b".." => {
                out.pop();
            }
            c => out.push(c),
        }
    }
    let mut r = vec![];
    for c in out {
        r.push(b'/');
        r.extend_from_slice(c);
    }
    if r.is_empty() {
        r.push(b'/');
    }
    r
}
fn parent(p: &[u8]) -> Vec<u8> {
    match p.iter().rposition(|b| *b == b'/') {
        Some(0) | None => b"/".to_vec(),
        Some(i) => p[..i].to_vec(),
    }
}
fn show(p: &[u8]) -> String {
    String::from_utf8_lossy(p).into_owned()
}
impl Fs {
    fn alloc(&mut self, dir: bool) -> usize {
        self.inodes.push(Inode { dir, target: None, ro: false, data: vec![], durable: vec![], pend: vec![], mtime: wall(), locks: vec![] });
        self.inodes.len() - 1
    }
    /// The path with every symbolic link on the way replaced by what it leads to; `last`: the final component too.
    fn real(&self, p: &[u8], last: bool) -> Result<Vec<u8>, c_int> {
        let mut p = norm(p);
        if !self.has_links {
            return Ok(p);
        }
        for _ in 0..40 {
            let ends = (1..=p.len()).filter(|&k| k == p.len() || p[k] == b'/').filter(|&k| last || k < p.len());
            let hit = ends.filter_map(|k| self.inodes[*self.names.get(&p[..k])?].target.clone().map(|t| (k, t))).next();
            let Some((k, t)) = hit else { return Ok(p) };
            let t = if t[0] == b'/' { t } else { [&parent(&p[..k])[..], b"/", &t].concat() };
            p = norm(&[&t[..], &p[k..]].concat());
        }
        fault("symlink-loop");
        Err(libc::ELOOP)
    }
    pub fn real_or(&self, p: &[u8], last: bool) -> Vec<u8> {
        self.real(p, last).unwrap_or_else(|_| norm(p))
    }
    /// A symbolic link that has been there for long.
    pub fn setup_link(&mut self, p: &[u8], target: &[u8]) {
        let p = norm(p);
        self.setup_dir(&parent(&p));
        let i = self.alloc(false);
        self.inodes[i].target = Some(target.to_vec());
        self.names.insert(p.clone(), i);
        self.dnames.insert(p, i);
        self.has_links = true;
    }
    pub fn setup_dir(&mut self, p: &[u8]) {
        let p = self.real_or(p, true);
        if p != b"/" {
            let up = parent(&p);
            if !self.names.contains_key(&up) {
                self.setup_dir(&up);
            }
        }
        if !self.names.contains_key(&p) {
            let i = self.alloc(true);
            self.names.insert(p.clone(), i);
            self.dnames.insert(p, i);
        }
    }
    /// Puts a durable file in place, as if it had been there for long.
    pub fn setup_file(&mut self, p: &[u8], d: &[u8]) {
        let p = self.real_or(p, true);
        let i = match self.names.get(&p) {
            Some(&i) => i,
            None => {
                let i = self.alloc(false);
                self.names.insert(p.clone(), i);
                i
            }
        };
        self.dnames.insert(p, i);
        self.inodes[i].data = d.to_vec();
        self.inodes[i].durable = d.to_vec();
        self.inodes[i].pend.clear();
        self.version += 1;
    }
    /// Says when the file was last modified.
    pub fn set_mtime(&mut self, p: &[u8], ns: i64) {
        if let Some(&i) = self.names.get(&self.real_or(p, true)) {
            self.inodes[i].mtime = ns;
        }
    }
    pub fn set_ro(&mut self, p: &[u8], ro: bool) {
        if let Some(&i) = self.names.get(&self.real_or(p, true)) {
            self.inodes[i].ro = ro;
        }
    }
    pub fn remove(&mut self, p: &[u8]) {
        let p = self.real_or(p, false);
        self.names.remove(&p);
        self.dnames.remove(&p);
        self.version += 1;
    }
    pub fn exists(&self, p: &[u8]) -> bool {
        self.names.contains_key(&self.real_or(p, true))
    }
    pub fn content(&self, p: &[u8]) -> Option<&[u8]> {
        let i = *self.names.get(&self.real_or(p, true))?;
        if self.inodes[i].dir || self.inodes[i].target.is_some() { None } else { Some(&self.inodes[i].data) }
    }
    pub fn sync_all(&mut self) {
        let ops: Vec<DirOp> = self.dpend.drain(..).collect();
        for o in ops {
            apply_dir(&mut self.dnames, o);
        }
        for i in &mut self.inodes {
            i.durable = i.data.clone();
            i.pend.clear();
        }
    }
    pub fn files(&self) -> Vec<(Vec<u8>, Vec<u8>)> {
        self.names.iter().filter(|(_, &i)| !self.inodes[i].dir && self.inodes[i].target.is_none()).map(|(p, &i)| (p.clone(), self.inodes[i].data.clone())).collect()
    }
    fn used(&self) -> usize {
        self.inodes.iter().map(|i| i.data.len()).sum()
    }
    /// `p` leads through no links any more.
    fn lookup(&self, p: &[u8]) -> Result<usize, c_int> {
        match self.names.get(p) {
            Some(&i) => Ok(i),
            None => {
                let up = parent(p);
                match self.names.get(&up) {
                    Some(&d) if self.inodes[d].dir => Err(libc::ENOENT),
                    Some(_) => Err(libc::ENOTDIR),
                    None => {
                        // distinguish "a component is a file"
                        let mut q = up;
                        while q != b"/" {
                            if let Some(&i) = self.names.get(&q) {
                                return Err(if self.inodes[i].dir { libc::ENOENT } else { libc::ENOTDIR });
                            }
                            q = parent(&q);
                        }
                        Err(libc::ENOENT)
                    }
                }
            }
        }
    }
}
/// The machine's wall clock (what an unskewed process reads), in nanoseconds since the epoch.
pub fn wall() -> i64 {
    ctx_ns() as i64 + 1_700_000_001_000_000_000
}
fn ctx_ns() -> u64 {
    if have_ctx() { ctx().sim_ns } else { 0 }
}
fn proc_of(me: usize) -> &'static mut Proc {
    let w = w();
    let p = w.actors[me].proc;
    &mut w.procs[p]
}
fn mutated(me: usize) {
    proc_of(me).mutations += 1;
    let w = w();
    w.fs.version += 1;
    w.notify();
}
pub fn open(me: usize, path: &[u8], flags: c_int, _mode: u32) -> R {
    let _g = SimGuard::new();
    enter(me, "open", 3_000)?;
    let p = norm(path);
    let acc = flags & libc::O_ACCMODE;
    let wr = acc != libc::O_RDONLY;
    if inject(|r| r.eintr, "eintr-on-open") {
        return Err(libc::EINTR);
    }
    if inject(|r| r.open_err, "open-failed") {
        return Err(*pick_ref(&[libc::EACCES, libc::EMFILE, libc::EIO, libc::ENOMEM, libc::ELOOP]));
    }
    let w = w();
    let excl = flags & libc::O_CREAT != 0 && flags & libc::O_EXCL != 0;
    let p = w.fs.real(&p, !excl && flags & libc::O_NOFOLLOW == 0)?;
    let r = w.fs.lookup(&p);
    let ino = match r {
        Ok(i) => {
            if excl {
                probe("a new file's name was taken");
                return Err(libc::EEXIST);
            }
            if w.fs.inodes[i].target.is_some() {
                return Err(libc::ELOOP);
            }
            if w.fs.inodes[i].dir && wr {
                return Err(libc::EISDIR);
            }
            if !w.fs.inodes[i].dir && flags & libc::O_DIRECTORY != 0 {
                return Err(libc::ENOTDIR);
            }
            if w.fs.inodes[i].ro && wr {
                return Err(libc::EACCES);
            }
            i
        }
        Err(libc::ENOENT) if flags & libc::O_CREAT != 0 => {
            let up = w.fs.lookup(&parent(&p))?;
            if w.fs.inodes[up].ro {
                fault("read-only-directory");
                return Err(libc::EROFS);
            }
            if inject(|r| r.enospc, "disk-full-on-create") {
                return Err(libc::ENOSPC);
            }
            let i = w.fs.alloc(false);
            w.fs.names.insert(p.clone(), i);
            w.fs.dpend.push(DirOp::Link(p.clone(), i));
            ev!("pid {} create {}", proc_of(me).pid, show(&p));
            mutated(me);
            i
        }
        Err(e) => {
            ev!("pid {} open {} -> errno {}", proc_of(me).pid, show(&p), e);
            return Err(e);
        }
    };
    let w = self::w();
    if wr && flags & libc::O_TRUNC != 0 && !w.fs.inodes[ino].data.is_empty() {
        w.fs.inodes[ino].data.clear();
        w.fs.inodes[ino].pend.push(Pend::Trunc(0));
        ev!("pid {} truncate {}", proc_of(me).pid, show(&p));
        mutated(me);
    }
    let fd = w.next_fd;
    w.next_fd += 1;
    let ofd = w.pos.len();
    w.pos.push(0);
    proc_of(me).fds.insert(
        fd,
        Open { ino, ofd, rd: acc != libc::O_WRONLY, wr, append: flags & libc::O_APPEND != 0, wrote: false, path: p.clone() },
    );
    ev!("pid {} open {} ({}) = fd{}", proc_of(me).pid, show(&p), if wr { "write" } else { "read" }, fd - FD_BASE);
    Ok(fd as usize)
}
/// A path relative to a directory that is open (or to the current one).
pub fn at(me: usize, d: c_int, p: &[u8]) -> Vec<u8> {
    let _g = SimGuard::new();
    match fdref(me, d) {
        Ok(o) if p.first() != Some(&b'/') => [&o.path[..], b"/", p].concat(),
        _ => p.to_vec(),
    }
}
fn fdref(me: usize, fd: c_int) -> Result<&'static mut Open, c_int> {
    proc_of(me).fds.get_mut(&fd).ok_or(libc::EBADF)
}
pub fn fcntl(me: usize, fd: c_int, cmd: c_int) -> R {
    let _g = SimGuard::new();
    if is_dead(me) {
        return Ok(0); // std aborts the process when a descriptor it owns is reported as closed
    }
    let o = fdref(me, fd)?;
    match cmd {
        libc::F_GETFD => Ok(libc::FD_CLOEXEC as usize),
        libc::F_SETFD | libc::F_SETFL => Ok(0),
        libc::F_GETFL => Ok((if o.rd && o.wr { libc::O_RDWR } else if o.wr { libc::O_WRONLY } else { libc::O_RDONLY }) as usize),
        libc::F_DUPFD | libc::F_DUPFD_CLOEXEC => {
            let c = o.clone();
            let w = w();
            let n = w.next_fd;
            w.next_fd += 1;
            proc_of(me).fds.insert(n, c);
            Ok(n as usize)
        }
        _ => Err(libc::EINVAL),
    }
}
pub fn close(me: usize, fd: c_int) -> R {
    let _g = SimGuard::new();
    enter(me, "close", 500)?;
    release_lock(w().actors[me].proc, fd);
    let o = proc_of(me).fds.remove(&fd).ok_or(libc::EBADF)?;
    ev!("pid {} close fd{}", proc_of(me).pid, fd - FD_BASE);
    if o.wrote && inject(|r| r.close_err, "close-failed") {
        return Err(libc::EIO);
    }
    Ok(0)
}
pub fn read(me: usize, fd: c_int, b: &mut [u8], off: Option<usize>) -> R {
    let _g = SimGuard::new();
    enter(me, "read", 2_000)?;
    if inject(|r| r.eintr, "eintr-on-read") {
        return Err(libc::EINTR);
    }
    if inject(|r| r.read_err, "read-failed") {
        return Err(libc::EIO);
    }
    let o = fdref(me, fd)?;
    let w = w();
    if w.fs.inodes[o.ino].dir {
        return Err(libc::EISDIR);
    }
    if !o.rd {
        return Err(libc::EBADF);
    }
    let data = &w.fs.inodes[o.ino].data;
    let pos = off.unwrap_or(w.pos[o.ofd]);
    let avail = data.len().saturating_sub(pos);
    let mut n = avail.min(b.len());
    if n > 1 && inject(|r| r.short_read, "short-read") {
        n = 1 + pick(n - 1);
    }
    if n > 0 {
        b[..n].copy_from_slice(&data[pos..pos + n]);
    }
    if off.is_none() {
        w.pos[o.ofd] = pos + n;
    }
    ev!("pid {} read fd{} = {}", proc_of(me).pid, fd - FD_BASE, n);
    Ok(n)
}
pub fn write(me: usize, fd: c_int, b: &[u8], off: Option<usize>) -> R {
    let _g = SimGuard::new();
    enter(me, "write", 2_000)?;
    if inject(|r| r.eintr, "eintr-on-write") {
        return Err(libc::EINTR);
    }
    if inject(|r| r.write_err, "write-failed") {
        return Err(*pick_ref(&[libc::EIO, libc::EDQUOT, libc::EFBIG]));
    }
    let o = fdref(me, fd)?;
    if !o.wr {
        return Err(libc::EBADF);
    }
    let w = w();
    let mut n = b.len();
    if n > 1 && inject(|r| r.short_write, "short-write") {
        n = 1 + pick(n - 1);
    }
    let room = w.fs.capacity.saturating_sub(w.fs.used());
    if n > room {
        fault("disk-full");
        n = room;
    }
    if n > 0 && inject(|r| r.enospc, "disk-full-on-write") {
        n = pick(n);
    }
    if n == 0 && !b.is_empty() {
        return Err(libc::ENOSPC);
    }
    let ino = &mut w.fs.inodes[o.ino];
    let pos = if o.append { ino.data.len() } else { off.unwrap_or(w.pos[o.ofd]) };
    put(&mut ino.data, pos, &b[..n]);
    ino.pend.push(Pend::Write(pos, b[..n].to_vec()));
    ino.mtime = wall();
    if off.is_none() {
        w.pos[o.ofd] = pos + n;
    }
    o.wrote = true;
    ev!("pid {} write fd{} {} of {} at {}", proc_of(me).pid, fd - FD_BASE, n, b.len(), pos);
    mutated(me);
    Ok(n)
}
pub fn lseek(me: usize, fd: c_int, off: i64, whence: c_int) -> R {
    let _g = SimGuard::new();
    if is_dead(me) {
        return Err(libc::EIO);
    }
    let o = fdref(me, fd)?;
    let base = match whence {
        libc::SEEK_SET => 0,
        libc::SEEK_CUR => w().pos[o.ofd] as i64,
        _ => w().fs.inodes[o.ino].data.len() as i64,
    };
    if base + off < 0 {
        return Err(libc::EINVAL);
    }
    w().pos[o.ofd] = (base + off) as usize;
    Ok((base + off) as usize)
}
pub fn ftruncate(me: usize, fd: c_int, len: usize) -> R {
    let _g = SimGuard::new();
    enter(me, "ftruncate", 2_000)?;
    if inject(|r| r.write_err, "truncate-failed") {
        return Err(libc::EIO);
    }
    let o = fdref(me, fd)?;
    let w = w();
    w.fs.inodes[o.ino].data.resize(len, 0);
    w.fs.inodes[o.ino].pend.push(Pend::Trunc(len));
    w.fs.inodes[o.ino].mtime = wall();
    ev!("pid {} ftruncate fd{} {}", proc_of(me).pid, fd - FD_BASE, len);
    mutated(me);
    Ok(0)
}
pub fn fsync(me: usize, fd: c_int) -> R {
    let _g = SimGuard::new();
    enter(me, "fsync", 5_000_000)?;
    if inject(|r| r.fsync_err, "fsync-failed") {
        return Err(libc::EIO);
    }
    let o = fdref(me, fd)?;
    let w = w();
    let ino = &mut w.fs.inodes[o.ino];
    ino.durable = ino.data.clone();
    ino.pend.clear();
    let ops: Vec<DirOp> = w.fs.dpend.drain(..).collect();
    for op in ops {
        apply_dir(&mut w.fs.dnames, op);
    }
    ev!("pid {} fsync fd{}", proc_of(me).pid, fd - FD_BASE);
    Ok(0)
}
pub fn rename(me: usize, a: &[u8], b: &[u8]) -> R {
    let _g = SimGuard::new();
    enter(me, "rename", 5_000)?;
    let (a, b) = (norm(a), norm(b));
    if inject(|r| r.rename_err, "rename-failed") {
        return Err(*pick_ref(&[libc::EIO, libc::ENOSPC, libc::EACCES, libc::EXDEV]));
    }
    let w = w();
    let (a, b) = (w.fs.real(&a, false)?, w.fs.real(&b, false)?);
    let i = w.fs.lookup(&a)?;
    let up = w.fs.lookup(&parent(&b))?;
    if device(&a) != device(&b) {
        fault("rename-across-devices");
        return Err(libc::EXDEV);
    }
    if w.fs.inodes[up].ro || w.fs.inodes[w.fs.lookup(&parent(&a))?].ro {
        return Err(libc::EROFS);
    }
    if let Ok(t) = w.fs.lookup(&b) {
        if w.fs.inodes[t].dir != w.fs.inodes[i].dir {
            return Err(libc::EISDIR);
        }
    }
    w.fs.names.remove(&a);
    w.fs.names.insert(b.clone(), i);
    w.fs.dpend.push(DirOp::Rename(a.clone(), b.clone()));
    ev!("pid {} rename {} -> {}", proc_of(me).pid, show(&a), show(&b));
    mutated(me);
    Ok(0)
}
pub fn link(me: usize, a: &[u8], b: &[u8]) -> R {
    let _g = SimGuard::new();
    enter(me, "link", 5_000)?;
    let (a, b) = (norm(a), norm(b));
    let w = w();
    let (a, b) = (w.fs.real(&a, false)?, w.fs.real(&b, false)?);
    let i = w.fs.lookup(&a)?;
    if device(&a) != device(&b) {
        return Err(libc::EXDEV);
    }
    if w.fs.names.contains_key(&b) {
        return Err(libc::EEXIST);
    }
    w.fs.names.insert(b.clone(), i);
    w.fs.dpend.push(DirOp::Link(b, i));
    mutated(me);
    Ok(0)
}
pub fn unlink(me: usize, p: &[u8]) -> R {
    let _g = SimGuard::new();
    enter(me, "unlink", 5_000)?;
    let p = norm(p);
    if inject(|r| r.unlink_err, "unlink-failed") {
        return Err(*pick_ref(&[libc::EIO, libc::EACCES, libc::EBUSY]));
    }
    let w = w();
    let p = w.fs.real(&p, false)?;
    let i = w.fs.lookup(&p)?;
    if w.fs.inodes[i].dir {
        return Err(libc::EISDIR);
    }
    if w.fs.inodes[w.fs.lookup(&parent(&p))?].ro {
        return Err(libc::EROFS);
    }
    w.fs.names.remove(&p);
    w.fs.dpend.push(DirOp::Unlink(p.clone()));
    ev!("pid {} unlink {}", proc_of(me).pid, show(&p));
    mutated(me);
    Ok(0)
}
/// The mount a path is on.
fn device(p: &[u8]) -> usize {
    w().mounts.iter().position(|m| p.starts_with(m) && p.get(m.len()) == Some(&b'/')).map_or(0, |i| i + 1)
}
pub fn rmdir(me: usize, p: &[u8]) -> R {
    let _g = SimGuard::new();
    enter(me, "rmdir", 5_000)?;
    let p = norm(p);
    if inject(|r| r.unlink_err, "rmdir-failed") {
        return Err(*pick_ref(&[libc::EIO, libc::EACCES, libc::EBUSY]));
    }
    let w = w();
    let p = w.fs.real(&p, false)?;
    let i = w.fs.lookup(&p)?;
    if !w.fs.inodes[i].dir {
        return Err(libc::ENOTDIR);
    }
    if w.fs.names.keys().any(|q| q != &p && parent(q) == p) || p == b"/" {
        return Err(libc::ENOTEMPTY);
    }
    if w.fs.inodes[w.fs.lookup(&parent(&p))?].ro {
        return Err(libc::EROFS);
    }
    w.fs.names.remove(&p);
    w.fs.dpend.push(DirOp::Unlink(p.clone()));
    ev!("pid {} rmdir {}", proc_of(me).pid, show(&p));
    mutated(me);
    Ok(0)
}
/// Names, inode numbers and kinds of what is in a directory.
pub fn list(me: usize, p: &[u8]) -> Result<Vec<(Vec<u8>, u64, u8)>, c_int> {
    let _g = SimGuard::new();
    enter(me, "opendir", 5_000)?;
    let p = norm(p);
    if inject(|r| r.open_err, "opendir-failed") {
        return Err(*pick_ref(&[libc::EACCES, libc::EMFILE, libc::EIO]));
    }
    let w = w();
    let p = w.fs.real(&p, true)?;
    let d = w.fs.lookup(&p)?;
    if !w.fs.inodes[d].dir {
        return Err(libc::ENOTDIR);
    }
    let mut v: Vec<(Vec<u8>, u64, u8)> = vec![(b".".to_vec(), 1, libc::DT_DIR), (b"..".to_vec(), 1, libc::DT_DIR)];
    for (q, &i) in w.fs.names.iter().filter(|(q, _)| **q != p && parent(q) == p) {
        let at = 2 + pick(v.len() - 1);
        let n = q.rsplit(|b| *b == b'/').next().unwrap().to_vec();
        let ino = &w.fs.inodes[i];
        let kind = if ino.target.is_some() { libc::DT_LNK } else if ino.dir { libc::DT_DIR } else { libc::DT_REG };
        v.insert(at.min(v.len()), (n, i as u64 + 1, kind));
    }
    probe("directory listed");
    ev!("pid {} lists {} ({} entries)", proc_of(me).pid, show(&p), v.len() - 2);
    Ok(v)
}
pub fn set_times(me: usize, path: &[u8], fd: Option<c_int>, mtime: Option<i64>) -> R {
    let _g = SimGuard::new();
    enter(me, "utimens", 1_500)?;
    let i = match fd {
        Some(f) => fdref(me, f)?.ino,
        None => w().fs.lookup(&w().fs.real(path, true)?)?,
    };
    if let Some(t) = mtime {
        w().fs.inodes[i].mtime = t;
    }
    mutated(me);
    Ok(0)
}
pub fn mkdir(me: usize, p: &[u8]) -> R {
    let _g = SimGuard::new();
    enter(me, "mkdir", 5_000)?;
    let p = norm(p);
    let w = w();
    let p = w.fs.real(&p, false)?;
    if w.fs.names.contains_key(&p) {
        return Err(libc::EEXIST);
    }
    w.fs.lookup(&p).or_else(|e| if e == libc::ENOENT { Ok(0) } else { Err(e) })?;
    let up = w.fs.lookup(&parent(&p))?;
    if w.fs.inodes[up].ro {
        return Err(libc::EROFS);
    }
    let i = w.fs.alloc(true);
    w.fs.names.insert(p.clone(), i);
    w.fs.dpend.push(DirOp::Link(p.clone(), i));
    ev!("pid {} mkdir {}", proc_of(me).pid, show(&p));
    mutated(me);
    Ok(0)
}
fn stat_of(i: usize) -> Stat {
    let ino = &w().fs.inodes[i];
    Stat {
        mode: if ino.target.is_some() { libc::S_IFLNK | 0o777 } else if ino.dir { libc::S_IFDIR | 0o755 } else { libc::S_IFREG | if ino.ro { 0o444 } else { 0o644 } },
        size: ino.data.len(),
        ino: i as u64 + 1,
        mtime: ino.mtime.div_euclid(1_000_000_000),
        mtime_ns: ino.mtime.rem_euclid(1_000_000_000),
    }
}
pub fn stat_path(me: usize, p: &[u8], follow: bool) -> Result<Stat, c_int> {
    let _g = SimGuard::new();
    enter(me, "stat", 1_500)?;
    if inject(|r| r.stat_err, "stat-failed") {
        return Err(libc::EIO);
    }
    let p = w().fs.real(p, follow)?;
    let i = w().fs.lookup(&p)?;
    Ok(stat_of(i))
}
/// The path itself without any links, provided that it leads to something.
pub fn real_path(me: usize, p: &[u8]) -> Result<Vec<u8>, c_int> {
    stat_path(me, p, true)?;
    let _g = SimGuard::new();
    w().fs.real(p, true)
}
pub fn read_link(me: usize, p: &[u8]) -> Result<Vec<u8>, c_int> {
    let _g = SimGuard::new();
    enter(me, "readlink", 1_500)?;
    let w = w();
    let p = w.fs.real(p, false)?;
    let i = w.fs.lookup(&p)?;
    w.fs.inodes[i].target.clone().ok_or(libc::EINVAL)
}
pub fn stat_fd(me: usize, fd: c_int) -> Result<Stat, c_int> {
    let _g = SimGuard::new();
    enter(me, "fstat", 500)?;
    if inject(|r| r.stat_err, "stat-failed") {
        return Err(libc::EIO);
    }
    let i = fdref(me, fd)?.ino;
    Ok(stat_of(i))
}
pub fn flock(me: usize, fd: c_int, op: c_int) -> R {
    let _g = SimGuard::new();
    enter(me, "flock", 1_000)?;
    let (ino, ofd) = fdref(me, fd).map(|o| (o.ino, o.ofd))?;
    let p = w().actors[me].proc;
    if op & libc::LOCK_UN != 0 {
        unlock(ino, ofd);
        return Ok(0);
    }
    let excl = op & libc::LOCK_EX != 0;
    loop {
        let w = w();
        if w.procs[p].dead {
            return Err(libc::EINTR);
        }
        let l = &mut w.fs.inodes[ino].locks;
        if l.iter().all(|k| k.0 == ofd || !(k.1 || excl)) {
            l.retain(|k| k.0 != ofd);
            l.push((ofd, excl));
            ev!("pid {} locks inode {}", w.procs[p].pid, ino);
            return Ok(0);
        }
        probe("waited for a file lock");
        if op & libc::LOCK_NB != 0 {
            return Err(libc::EWOULDBLOCK);
        }
        w.actors[me].st = St::Futex(1 + ino, u64::MAX);
        reschedule(me);
    }
}
fn unlock(ino: usize, ofd: usize) {
    let w = w();
    let l = &mut w.fs.inodes[ino].locks;
    let n = l.len();
    l.retain(|k| k.0 != ofd);
    if l.len() < n {
        w.wake(|s| matches!(s, St::Futex(a, _) if *a == 1 + ino), usize::MAX);
    }
}
/// A descriptor is about to be closed: its locks go when it is the last one of its description.
fn release_lock(p: usize, fd: c_int) {
    let w = w();
    let Some(o) = w.procs[p].fds.get(&fd) else { return };
    let (ino, ofd) = (o.ino, o.ofd);
    if w.procs[p].fds.values().filter(|q| q.ofd == ofd).count() == 1 {
        unlock(ino, ofd);
    }
}

// ---- environment ------------------------------------------------------------------------------------
pub fn getenv(me: usize, name: &[u8]) -> *mut c_char {
    match proc_of(me).env.get(name) {
        Some(c) => c.as_ptr() as *mut c_char,
        None => std::ptr::null_mut(),
    }
}
pub fn pw_home(me: usize) -> Option<&'static [u8]> {
    proc_of(me).pw_home.as_deref()
}
pub fn getpid(me: usize) -> c_int {
    proc_of(me).pid
}
pub fn clock(me: usize, real: bool) -> u64 {
    let base = ctx().sim_ns + 1_000_000_000;
    if real {
        (wall() + proc_of(me).skew / 8).max(0) as u64
    } else {
        base
    }
}

// ---- network -----------------------------------------------------------------------------------------
pub struct SimNetwork;
pub static NETWORK: SimNetwork = SimNetwork;
impl reqwest::SimNet for SimNetwork {
    fn request(&self, r: &reqwest::SimRequest) -> Result<reqwest::SimHead, reqwest::SimErr> {
        use reqwest::SimErr;
        let _g = SimGuard::new();
        let me = match ACTOR.get() {
            0 => return Err(SimErr::Connect),
            n => n as usize - 1,
        };
        if enter(me, "request", 10_000).is_err() {
            return Err(SimErr::Connect);
        }
        let p = proc_of(me);
        p.requests += 1;
        w().actors[me].requests += 1;
        w().net.requests += 1;
        let pid = p.pid;
        ev!("pid {} {} {}", pid, r.method, r.url);
        if !w().net.up {
            fault("network-down");
            return Err(SimErr::Connect);
        }
        if inject(|r| r.net_dns, "dns-or-connect-failure") {
            wait(me, 5_000_000_000);
            return Err(SimErr::Connect);
        }
        if inject(|r| r.net_timeout, "request-timeout") {
            let t = r.timeout.map(|d| d.as_nanos() as u64).unwrap_or(120_000_000_000);
            wait(me, t);
            return Err(SimErr::Timeout);
        }
        let lat = if inject(|r| r.net_slow, "slow-network") { 1_000_000 * (1 + pick(20_000) as u64) } else { 20_000_000 };
        wait(me, lat);
        if is_dead(me) {
            return Err(SimErr::Connect);
        }
        let w = w();
        if r.url != w.net.url || r.method != "GET" {
            probe("request for another resource");
            return Ok(self.ticket(404, b"404: Not Found".to_vec(), None, None));
        }
        if w.rates.publish > 0 && w.faults_on && w.net.current + 1 < w.net.editions.len() && chance(w.rates.publish * 4) {
            publish();
        }
        if inject(|r| r.net_error_page, "http-error-page") {
            let (s, b): (u16, &[u8]) = *pick_ref(&[
                (404u16, &b"404: Not Found"[..]),
                (500, b"<html><body>oops</body></html>"),
                (503, b""),
                (429, b"{\"message\":\"API rate limit exceeded\"}"),
                (403, b"{\"groups\":\"forbidden\"}"),
            ]);
            return Ok(self.ticket(s, b.to_vec(), None, None));
        }
        if inject(|r| r.net_garbage, "captive-portal-or-unloadable-document") && !w.net.garbage.is_empty() {
            let b = pick_ref(&w.net.garbage).clone();
            return Ok(self.ticket(200, b, None, None));
        }
        let mut e = w.net.current;
        if e > 0 && inject(|r| r.net_stale, "stale-cdn-node") {
            e = pick(e + 1);
        }
        let body = w.net.editions[e].clone();
        if !body.is_empty() && inject(|r| r.net_trunc_err, "connection-reset-mid-body") {
            let at = pick(body.len());
            return Ok(self.ticket(200, body, Some(at), Some(e)));
        }
        if !body.is_empty() && inject(|r| r.net_trunc_ok, "body-silently-truncated") {
            let at = pick(body.len());
            return Ok(self.ticket(200, body[..at].to_vec(), None, None));
        }
        ev!("server answers with edition {e}");
        Ok(self.ticket(200, body, None, Some(e)))
    }
    fn body(&self, ticket: u64, max: usize) -> Result<Vec<u8>, reqwest::SimErr> {
        let _g = SimGuard::new();
        let me = match ACTOR.get() {
            0 => return Err(reqwest::SimErr::Body),
            n => n as usize - 1,
        };
        if enter(me, "recv", 10_000).is_err() {
            return Err(reqwest::SimErr::Body);
        }
        if w().net.tickets[ticket as usize].off == 0 {
            wait(me, 30_000_000);
            if is_dead(me) {
                return Err(reqwest::SimErr::Body);
            }
        }
        let t = &mut w().net.tickets[ticket as usize];
        let end = t.fail_at.unwrap_or(t.body.len());
        let n = (end - t.off).min(max).min(1 << 16);
        if n == 0 {
            if t.fail_at.is_some() {
                ev!("pid {} connection reset after {} bytes", proc_of(me).pid, t.off);
                return Err(reqwest::SimErr::Body);
            }
            if !t.rec {
                t.rec = true;
                let d = Delivered { body: t.body.clone(), edition: t.edition };
                ev!("pid {} received {} bytes", proc_of(me).pid, d.body.len());
                w().net.delivered.push(d);
            }
            return Ok(vec![]);
        }
        let b = t.body[t.off..t.off + n].to_vec();
        t.off += n;
        if t.off == t.body.len() && !t.rec {
            t.rec = true;
            let d = Delivered { body: t.body.clone(), edition: t.edition };
            ev!("pid {} received {} bytes", proc_of(me).pid, d.body.len());
            w().net.delivered.push(d);
        }
        Ok(b)
    }
}
impl SimNetwork {
    fn ticket(&self, status: u16, body: Vec<u8>, fail_at: Option<usize>, edition: Option<usize>) -> reqwest::SimHead {
        let w = w();
        let len = body.len() as u64;
        w.net.tickets.push(Ticket { body, off: 0, fail_at, edition, rec: false });
        reqwest::SimHead { status, headers: vec![], content_length: Some(len), ticket: w.net.tickets.len() as u64 - 1 }
    }
}
fn wait(me: usize, ns: u64) {
    let w = w();
    w.actors[me].st = St::Sleep(ctx().sim_ns + ns);
    reschedule(me);
}

/// What the code under test prints goes nowhere; now and then nobody takes it.
pub fn console(me: usize, n: usize) -> R {
    if w().rates.stdout_err + w().rates.stdout_short == 0 || is_dead(me) {
        return Ok(n);
    }
    let _g = SimGuard::new();
    if enter(me, "write to stdout", 1_000).is_err() {
        return Ok(n);
    }
    if inject(|r| r.stdout_err, "stdout-refused") {
        return Err(*pick_ref(&[libc::EPIPE, libc::ENOSPC, libc::EIO, libc::EAGAIN]));
    }
    if inject(|r| r.eintr, "eintr-on-stdout") {
        return Err(libc::EINTR);
    }
    if n > 1 && inject(|r| r.stdout_short, "stdout-took-a-part") {
        return Ok(1 + pick(n - 1));
    }
    Ok(n)
}
