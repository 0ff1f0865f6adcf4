//! Run context: the single source of choices, the event log, fault and probe counters.
//!
//! One run happens in one forked child.  Exactly one thread (the baton holder) touches this state at a
//! time, so plain global mutable state is used.
use std::cell::Cell;
use std::collections::BTreeMap;
use std::fmt::Write as _;

#[derive(Clone)]
pub struct Rng(pub u64, pub u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut s = seed;
        let a = splitmix(&mut s);
        let b = splitmix(&mut s);
        Rng(a | 1, b)
    }
    pub fn next(&mut self) -> u64 {
        // xoroshiro128+
        let (s0, mut s1) = (self.0, self.1);
        let r = s0.wrapping_add(s1);
        s1 ^= s0;
        self.0 = s0.rotate_left(24) ^ s1 ^ (s1 << 16);
        self.1 = s1.rotate_left(37);
        r >> 11
    }
}
pub fn splitmix(s: &mut u64) -> u64 {
    *s = s.wrapping_add(0x9E37_79B9_7F4A_7C15);
    let mut z = *s;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}
pub fn hash_bytes(mut h: u64, b: &[u8]) -> u64 {
    for c in b.chunks(8) {
        let mut v = 0u64;
        for (i, x) in c.iter().enumerate() {
            v |= (*x as u64) << (8 * i);
        }
        h = (h ^ v ^ ((c.len() as u64) << 56)).wrapping_mul(0x9E37_79B9_7F4A_7C15);
        h ^= h >> 29;
    }
    h
}

pub const MAX_CHOICES: usize = 400_000;

pub struct Ctx {
    pub prop: &'static str,
    pub replay: Option<Vec<u32>>,
    pub pos: usize,
    pub rng: Rng,
    pub choices: &'static mut [u32],
    pub spans: Vec<(u32, u32)>,
    open: Vec<u32>,
    pub verbose: bool,
    pub want_spans: bool,
    pub log: Vec<String>,
    buf: String,
    pub log_hash: u64,
    pub events: u64,
    pub shape: u64,
    pub faults: BTreeMap<&'static str, u64>,
    pub probes: BTreeMap<&'static str, u64>,
    pub sim_ns: u64,
    pub nontrivial: bool,
    pub out_fd: i32,
    pub evals: u64,
    /// Some collections of this run are long: 1 more than 256 items, 2 more than 65536 bytes.
    pub big: u8,
}
static mut CTX: *mut Ctx = std::ptr::null_mut();

#[allow(static_mut_refs)]
pub fn ctx() -> &'static mut Ctx {
    unsafe {
        debug_assert!(!CTX.is_null());
        &mut *CTX
    }
}
pub fn have_ctx() -> bool {
    unsafe { !CTX.is_null() }
}

impl Ctx {
    pub fn install(prop: &'static str, seed: u64, replay: Option<Vec<u32>>, verbose: bool, out_fd: i32, shared: &'static mut [u32]) {
        shared[0] = 0;
        let c = Ctx {
            prop,
            replay,
            pos: 0,
            rng: Rng::new(seed),
            choices: shared,
            spans: Vec::new(),
            open: Vec::new(),
            verbose,
            want_spans: verbose,
            log: Vec::new(),
            buf: String::new(),
            log_hash: 0x1234_5678,
            events: 0,
            shape: 0x55,
            faults: BTreeMap::new(),
            probes: BTreeMap::new(),
            sim_ns: 0,
            nontrivial: false,
            out_fd,
            evals: 0,
            big: 0,
        };
        unsafe { CTX = Box::into_raw(Box::new(c)) }
    }
}

thread_local! {
    /// Set while simulator code runs on an actor thread: its own allocations and calls are not simulated.
    pub static IN_SIM: Cell<bool> = const { Cell::new(false) };
    /// 0 = not an actor, otherwise actor index + 1.
    pub static ACTOR: Cell<u32> = const { Cell::new(0) };
}
/// Runs simulator code with interception switched off on this thread.
pub struct SimGuard(bool, i32);
impl SimGuard {
    pub fn new() -> Self {
        // (the countdown stops first and resumes last, or a pre-emption due in between would be lost)
        let left = crate::cov::suspend();
        SimGuard(IN_SIM.replace(true), left)
    }
}
impl Drop for SimGuard {
    fn drop(&mut self) {
        IN_SIM.set(self.0);
        crate::cov::resume(self.1);
    }
}

/// (choices[0] is the number of choices drawn so far; the array is shared with the parent process, so
/// that it survives a crash of the run.)
///
/// The only source of choices: uniform in 0..n (n >= 1); 0 is by convention the simplest choice.
pub fn pick(n: usize) -> usize {
    debug_assert!(n >= 1 && n <= u32::MAX as usize);
    let _g = SimGuard::new();
    let c = ctx();
    if n <= 1 {
        return 0;
    }
    let at = c.choices[0] as usize + 1;
    if at >= c.choices.len() {
        return 0;
    }
    let v = match &c.replay {
        Some(r) => {
            let v = r.get(c.pos).copied().unwrap_or(0) as usize;
            v.min(n - 1)
        }
        None => (((c.rng.next() & 0xffff_ffff) * n as u64) >> 32) as usize,
    };
    c.pos += 1;
    c.choices[at] = v as u32;
    c.choices[0] = at as u32;
    v
}
/// True with probability p/1000.  Drawn so that "false" is the simplest choice.
pub fn chance(p: usize) -> bool {
    if p == 0 {
        return false;
    }
    pick(1000) >= 1000 - p.min(1000)
}
/// Inclusive range.
pub fn range(lo: usize, hi: usize) -> usize {
    lo + pick(hi - lo + 1)
}
/// Small values are more likely.
pub fn small(hi: usize) -> usize {
    match pick(4) {
        0 => pick(hi.min(2) + 1),
        1 => pick(hi.min(4) + 1),
        2 => pick(hi.min(9) + 1),
        _ => pick(hi + 1),
    }
}
pub fn pick_ref<T>(s: &[T]) -> &T {
    &s[pick(s.len())]
}
pub fn span<T>(f: impl FnOnce() -> T) -> T {
    {
        let _g = SimGuard::new();
        let c = ctx();
        c.open.push(c.choices[0]);
    }
    let r = f();
    {
        let _g = SimGuard::new();
        let c = ctx();
        if let Some(s) = c.open.pop() {
            let e = c.choices[0];
            if e > s {
                c.spans.push((s, e));
            }
        }
    }
    r
}

pub fn ev(args: std::fmt::Arguments) {
    let _g = SimGuard::new();
    let c = ctx();
    c.buf.clear();
    let _ = c.buf.write_fmt(args);
    c.log_hash = hash_bytes(c.log_hash, c.buf.as_bytes());
    c.events += 1;
    if c.verbose && c.log.len() < 5000 {
        c.log.push(format!("[{:>5} t={:.6}s] {}", c.events, c.sim_ns as f64 / 1e9, c.buf));
    }
}
#[macro_export]
macro_rules! ev { ($($t:tt)*) => { $crate::core::ev(format_args!($($t)*)) } }

/// Folds an observation into the "distinct behaviour" measure (interleaving / history shape).
pub fn shape(x: u64) {
    let c = ctx();
    c.shape = hash_bytes(c.shape, &x.to_le_bytes());
}
pub fn fault(kind: &'static str) {
    let _g = SimGuard::new();
    *ctx().faults.entry(kind).or_insert(0) += 1;
}
pub fn probe(kind: &'static str) {
    let _g = SimGuard::new();
    *ctx().probes.entry(kind).or_insert(0) += 1;
}
pub fn nontrivial() {
    ctx().nontrivial = true;
}
/// One more oracle evaluation.
pub fn checked() {
    ctx().evals += 1;
}

#[derive(Debug, Clone)]
pub struct Viol {
    pub class: String,
    pub msg: String,
}

fn finish(status: &str, class: &str, msg: &str) -> ! {
    let _g = SimGuard::new();
    let c = ctx();
    let full = status != "ok" || c.verbose;
    let v = serde_json::json!({
        "status": status, "class": class, "msg": msg,
        "hash": c.log_hash, "shape": c.shape, "events": c.events, "sim_ns": c.sim_ns,
        "nt": c.nontrivial, "f": c.faults, "p": c.probes, "evals": c.evals,
        "nchoices": c.choices[0],
        "spans": if full { Some(&c.spans) } else { None },
        "log": if full { Some(&c.log) } else { None },
    });
    let s = v.to_string();
    let b = s.as_bytes();
    let mut off = 0;
    while off < b.len() {
        let n = unsafe { crate::seam::raw3(libc::SYS_write, c.out_fd as usize, b[off..].as_ptr() as usize, b.len() - off) };
        if n <= 0 {
            break;
        }
        off += n as usize;
    }
    unsafe {
        crate::seam::raw3(libc::SYS_exit_group, 0, 0, 0);
    }
    loop {}
}
/// Ends this run successfully.
pub fn finish_ok() -> ! {
    finish("ok", "", "")
}
/// Ends this run with a property violation.
pub fn violation(class: &str, msg: &str) -> ! {
    ev(format_args!("VIOLATION {class}: {msg}"));
    finish("viol", class, msg)
}
/// Ends this run with an error of the harness itself.
pub fn harness_error(msg: &str) -> ! {
    finish("harness", "harness", msg)
}
#[macro_export]
macro_rules! violate { ($class:expr, $($t:tt)*) => { $crate::core::violation($class, &format!($($t)*)) } }
/// Oracle assertion.
#[macro_export]
macro_rules! check { ($c:expr, $class:expr, $($t:tt)*) => {{
    $crate::core::checked();
    if !$c { $crate::core::violation($class, &format!($($t)*)) }
}} }

/// Payload of panics injected by the workload's own callbacks.
pub struct Injected;

thread_local! {
    /// The innermost guarded call was made by simulator code (an oracle calling the code under test).
    static GUARD_IN_SIM: Cell<bool> = const { Cell::new(false) };
    static LAST_PANIC: Cell<Option<Box<(String, String)>>> = const { Cell::new(None) };
}
pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let in_sim = IN_SIM.get() && !GUARD_IN_SIM.get();
        let _g = SimGuard::new();
        let msg = if info.payload().is::<Injected>() {
            "<injected>".to_string()
        } else if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "<non-string panic>".into()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        if in_sim && have_ctx() {
            // A panic of the simulator itself must never look like one of the code under test.
            harness_error(&format!("simulator panicked: {msg} at {loc}"));
        }
        LAST_PANIC.set(Some(Box::new((msg, loc))));
    }));
}
/// The process is about to abort (memory exhausted, panic while panicking, explicit abort).
pub fn aborted() -> ! {
    let sim = IN_SIM.get() && !GUARD_IN_SIM.get();
    let _g = SimGuard::new();
    let last = LAST_PANIC.take().map(|b| format!("{} at {}", b.0, b.1)).unwrap_or("none".into());
    if sim {
        harness_error(&format!("the simulator aborted; last panic: {last}"));
    }
    violation("abort", &format!("the code under test aborted the process; last panic: {last}"))
}
#[derive(Debug, Clone)]
pub struct Panicked {
    pub msg: String,
    pub loc: String,
    pub injected: bool,
}
/// Calls code under test, turning a panic into a value.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, Panicked> {
    let (sim, before) = (IN_SIM.get(), GUARD_IN_SIM.get());
    GUARD_IN_SIM.set(sim);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    GUARD_IN_SIM.set(before);
    IN_SIM.set(sim);
    match r {
        Ok(v) => Ok(v),
        Err(p) => {
            let _g = SimGuard::new();
            let (msg, loc) = LAST_PANIC.take().map(|b| *b).unwrap_or_default();
            let injected = p.is::<Injected>();
            Err(Panicked { msg, loc, injected })
        }
    }
}
/// Calls code under test that must not panic.
pub fn must<T>(what: &str, f: impl FnOnce() -> T) -> T {
    match guard(f) {
        Ok(v) => v,
        Err(p) => violation("panic", &format!("{what} panicked: {} (at {})", p.msg, p.loc)),
    }
}
/// A panic that reached the top of a run: of the harness itself, or of a reading call that cannot fail.
pub fn stray_panic(p: &Panicked) -> ! {
    if p.loc.starts_with("src/") || p.loc.is_empty() || p.injected {
        harness_error(&format!("panicked outside a guarded call: {} at {}", p.msg, p.loc))
    }
    violation("panic", &format!("a call that cannot fail panicked: {} at {}", p.msg, p.loc))
}
pub fn inject_panic() -> ! {
    fault("caller-panic");
    std::panic::panic_any(Injected)
}
