//! Pre-emption at basic blocks: the compiler's coverage callback counts down to a scheduling point.
//!
//! The countdown is thread local (a thread that has just handed the baton over still runs a few blocks
//! of simulator code before it sleeps) and stands at "never" while simulator code runs.
use crate::core::{fault, pick, SimGuard, ACTOR, IN_SIM};
use std::sync::atomic::{AtomicU32, Ordering};

const OFF: i32 = 0x7fff_ffff;
static MODE: AtomicU32 = AtomicU32::new(0);
/// Pre-emptions so far.  A run that has had very many is pre-empted half as often from then on, and so forth:
/// however long the calls it makes, it ends soon.
static HITS: AtomicU32 = AtomicU32::new(0);
const MANY: u32 = 15_000;

std::arch::global_asm!(
    ".section .tdata,\"awT\",@progbits",
    ".p2align 2",
    ".type bellsim_cov_left,@object",
    ".size bellsim_cov_left,4",
    "bellsim_cov_left:",
    ".long 0x7fffffff",
    ".text",
    ".globl __sanitizer_cov_trace_pc_guard",
    ".type __sanitizer_cov_trace_pc_guard,@function",
    "__sanitizer_cov_trace_pc_guard:",
    "sub dword ptr fs:[bellsim_cov_left@tpoff], 1",
    "js 2f",
    "ret",
    "2:",
    "mov dword ptr fs:[bellsim_cov_left@tpoff], 0x7fffffff",
    "jmp {slow}",
    ".globl __sanitizer_cov_trace_pc_guard_init",
    "__sanitizer_cov_trace_pc_guard_init:",
    "ret",
    ".globl bellsim_cov_swap",
    ".type bellsim_cov_swap,@function",
    "bellsim_cov_swap:",
    "mov eax, dword ptr fs:[bellsim_cov_left@tpoff]",
    "mov dword ptr fs:[bellsim_cov_left@tpoff], edi",
    "ret",
    slow = sym cov_slow,
);
unsafe extern "C" {
    fn bellsim_cov_swap(v: i32) -> i32;
}

extern "C" fn cov_slow() {
    let n = MODE.load(Ordering::Relaxed);
    if n == 0 || ACTOR.get() == 0 || IN_SIM.get() {
        return;
    }
    let me = ACTOR.get() as usize - 1;
    let left = {
        let _g = SimGuard::new();
        fault("preempted-at-basic-block");
        crate::world::preempt(me);
        let k = (HITS.fetch_add(1, Ordering::Relaxed) / MANY).min(14);
        pick((2 * n as usize) << k).min(OFF as usize) as i32
    };
    resume(left);
}
/// Pre-empts actors every `n` basic blocks on average (0 = never).
pub fn block_yield(n: u32) {
    MODE.store(n, Ordering::Relaxed);
}
#[inline]
pub fn suspend() -> i32 {
    unsafe { bellsim_cov_swap(OFF) }
}
#[inline]
pub fn resume(v: i32) {
    unsafe {
        bellsim_cov_swap(v);
    }
}
/// An actor thread starts running.
pub fn start() {
    if MODE.load(Ordering::Relaxed) != 0 {
        resume(0);
    }
}
