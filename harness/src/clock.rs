//! The process clock. clock_gettime is defined here, so std's Instant/SystemTime ask the checker.
use std::cell::Cell;
#[repr(C)]
pub struct Timespec { pub sec: i64, pub nsec: i64 }
extern "C" { fn syscall(n: i64, ...) -> i64; }
thread_local! {
    static FAKE: Cell<Option<(u64, u64)>> = const { Cell::new(None) }; // (monotonic ns, realtime us)
    static QUERIES: Cell<u64> = const { Cell::new(0) };
}
pub fn real_clock(id: i32) -> (i64, i64) {
    let mut ts = Timespec { sec: 0, nsec: 0 };
    unsafe { syscall(228, id as i64, &mut ts as *mut Timespec); }
    (ts.sec, ts.nsec)
}
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: i32, ts: *mut Timespec) -> i32 {
    if let Ok(Some((m, r))) = FAKE.try_with(|f| f.get()) {
        let _ = QUERIES.try_with(|q| q.set(q.get() + 1));
        if id == 0 {
            (*ts).sec = (r / 1_000_000) as i64;
            (*ts).nsec = ((r % 1_000_000) * 1000) as i64;
        } else {
            (*ts).sec = (m / 1_000_000_000) as i64;
            (*ts).nsec = (m % 1_000_000_000) as i64;
        }
        return 0;
    }
    syscall(228, id as i64, ts) as i32
}
/// Take over this thread's clock.
pub fn set(mono_ns: u64, real_us: u64) { FAKE.with(|f| f.set(Some((mono_ns, real_us)))); }
pub fn set_ms(ms: u64) { set(1_000_000_000_000 + ms * 1_000_000, 1_600_000_000_000_000 + ms * 1000); }
pub fn release() { FAKE.with(|f| f.set(None)); }
pub fn queries() -> u64 { QUERIES.with(|q| q.get()) }
