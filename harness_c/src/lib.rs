//! The C library of /repo, and the switch of its random source.
#[path = "/repo/c/src/lib.rs"]
mod c;

/// every bounded draw asks f(n) for an answer in 0..n
#[no_mangle]
pub extern "C" fn vp_choose(f: extern "C" fn(u64) -> u64) { rand::mc::install(Box::new(move |n| f(n))); }
/// back to the real source
#[no_mangle]
pub extern "C" fn vp_unchoose() { rand::mc::uninstall(); }
