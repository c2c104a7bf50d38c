//! libc-level seams: while a thread is inside a simulated run, the clock and the entropy source
//! belong to the simulator. Outside a run the calls go to the kernel.
use std::cell::Cell;

thread_local! {
    /// Simulated nanoseconds since the start of the run, if this thread is simulating
    static SIM_NOW: Cell<Option<u64>> = const { Cell::new(None) };
    static SIM_WALL_SKEW: Cell<i64> = const { Cell::new(0) };
    static SIM_ENTROPY: Cell<u64> = const { Cell::new(0) };
    static CLOCK_READS: Cell<u64> = const { Cell::new(0) };
    static SLEPT: Cell<u64> = const { Cell::new(0) };
}

const MONO_BASE: u64 = 1_000_000 * 1_000_000_000;
const WALL_BASE: u64 = 1_600_000_000 * 1_000_000_000;

pub fn enter(entropy: u64) {
    SIM_NOW.with(|c| c.set(Some(0)));
    SIM_WALL_SKEW.with(|c| c.set(0));
    SIM_ENTROPY.with(|c| c.set(entropy));
    CLOCK_READS.with(|c| c.set(0));
    SLEPT.with(|c| c.set(0));
}
pub fn leave() {
    SIM_NOW.with(|c| c.set(None));
}
pub fn set_now(ns: u64) {
    SIM_NOW.with(|c| c.set(Some(ns)));
}
pub fn set_wall_skew(ns: i64) {
    SIM_WALL_SKEW.with(|c| c.set(ns));
}
pub fn clock_reads() -> u64 {
    CLOCK_READS.with(|c| c.get())
}
/// Nanoseconds of blocking sleep requested since the last call
pub fn take_slept() -> u64 {
    SLEPT.with(|c| c.replace(0))
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: libc::clockid_t, ts: *mut libc::timespec) -> libc::c_int {
    let sim = SIM_NOW.try_with(|c| c.get()).ok().flatten();
    if let Some(now) = sim {
        let base = match clk {
            libc::CLOCK_MONOTONIC | libc::CLOCK_MONOTONIC_RAW | libc::CLOCK_MONOTONIC_COARSE | libc::CLOCK_BOOTTIME => Some(MONO_BASE + now),
            libc::CLOCK_REALTIME | libc::CLOCK_REALTIME_COARSE => {
                Some(((WALL_BASE + now) as i64 + SIM_WALL_SKEW.with(|c| c.get())) as u64)
            }
            _ => None,
        };
        if let Some(t) = base {
            CLOCK_READS.with(|c| c.set(c.get() + 1));
            (*ts).tv_sec = (t / 1_000_000_000) as libc::time_t;
            (*ts).tv_nsec = (t % 1_000_000_000) as libc::c_long;
            return 0;
        }
    }
    libc::syscall(libc::SYS_clock_gettime, clk as libc::c_long, ts) as libc::c_int
}

unsafe fn sim_sleep(req: *const libc::timespec) -> bool {
    let sim = SIM_NOW.try_with(|c| c.get()).ok().flatten();
    if let Some(now) = sim {
        let d = (*req).tv_sec as u64 * 1_000_000_000 + (*req).tv_nsec as u64;
        SLEPT.with(|c| c.set(c.get() + d));
        set_now(now + d);
        true
    } else {
        false
    }
}

#[no_mangle]
pub unsafe extern "C" fn nanosleep(req: *const libc::timespec, rem: *mut libc::timespec) -> libc::c_int {
    if sim_sleep(req) {
        return 0;
    }
    libc::syscall(libc::SYS_nanosleep, req, rem) as libc::c_int
}

#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(clk: libc::clockid_t, flags: libc::c_int, req: *const libc::timespec, rem: *mut libc::timespec) -> libc::c_int {
    if flags == 0 && sim_sleep(req) {
        return 0;
    }
    let r = libc::syscall(libc::SYS_clock_nanosleep, clk as libc::c_long, flags as libc::c_long, req, rem);
    if r == 0 { 0 } else { *libc::__errno_location() }
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut libc::c_void, len: libc::size_t, flags: libc::c_uint) -> libc::ssize_t {
    let sim = SIM_NOW.try_with(|c| c.get()).ok().flatten();
    if sim.is_some() {
        let out = std::slice::from_raw_parts_mut(buf as *mut u8, len);
        for b in out.iter_mut() {
            let e = SIM_ENTROPY.with(|c| {
                let v = crate::tape::mix(c.get());
                c.set(v);
                v
            });
            *b = (e >> 24) as u8;
        }
        return len as libc::ssize_t;
    }
    libc::syscall(libc::SYS_getrandom, buf, len, flags as libc::c_long) as libc::ssize_t
}
