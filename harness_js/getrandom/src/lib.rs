//! Stand-in for the random source of the JavaScript build: every answer is the checker's.
use std::cell::RefCell;
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct Error;
impl std::fmt::Display for Error { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("no random source") } }
impl std::error::Error for Error {}
thread_local! { pub static SOURCE: RefCell<Option<Box<dyn FnMut(&mut [u8])>>> = const { RefCell::new(None) }; static X: RefCell<u64> = const { RefCell::new(0x9E37_79B9_7F4A_7C15) }; }
pub fn install(f: Option<Box<dyn FnMut(&mut [u8])>>) { SOURCE.with(|s| *s.borrow_mut() = f); }
pub fn getrandom(dest: &mut [u8]) -> Result<(), Error> {
    SOURCE.with(|s| match s.borrow_mut().as_mut() {
        Some(f) => f(dest),
        None => X.with(|x| for d in dest { let mut v = x.borrow_mut(); *v ^= *v << 13; *v ^= *v >> 7; *v ^= *v << 17; *d = (*v >> 32) as u8; }),
    });
    Ok(())
}
