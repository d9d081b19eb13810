//! Deterministic stand-in for the OS entropy source, so that every random
//! choice the library makes during a replay is a function of the case's seed.
//! A thread's seed is set with `set_seed` before the library is called on it.
use std::cell::Cell;
use std::num::NonZeroU32;

thread_local! { static SEED: Cell<u64> = const { Cell::new(0x9e3779b97f4a7c15) }; }

pub fn set_seed(seed: u64) { SEED.with(|s| s.set(seed)); }

#[derive(Copy, Clone, Eq, PartialEq, Debug)]
pub struct Error(NonZeroU32);
impl Error {
    pub const INTERNAL_START: u32 = 1 << 31;
    pub const CUSTOM_START: u32 = (1 << 31) + (1 << 30);
    pub const fn code(self) -> NonZeroU32 { self.0 }
    pub const fn raw_os_error(self) -> Option<i32> { None }
}
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "getrandom stub error {}", self.0) }
}
impl std::error::Error for Error {}
impl From<NonZeroU32> for Error { fn from(c: NonZeroU32) -> Self { Error(c) } }
impl From<Error> for std::io::Error {
    fn from(e: Error) -> Self { std::io::Error::new(std::io::ErrorKind::Other, e) }
}

pub fn getrandom(dest: &mut [u8]) -> Result<(), Error> {
    for b in dest.iter_mut() {
        let s = SEED.with(|s| { let v = s.get().wrapping_add(0x9e3779b97f4a7c15); s.set(v); v });
        let mut z = s;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        *b = (z ^ (z >> 31)) as u8;
    }
    Ok(())
}
