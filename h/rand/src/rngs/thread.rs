//! Thread-local random number generator (verification stand-in, see sym.rs)
use std::rc::Rc;
use crate::{CryptoRng, Error, RngCore};
/// Stand-in for the thread-local generator
#[derive(Clone, Debug)]
pub struct ThreadRng { _rc: Option<Rc<u8>> }
/// Retrieve the generator
pub fn thread_rng() -> ThreadRng { ThreadRng { _rc: None } }
impl Default for ThreadRng { fn default() -> ThreadRng { thread_rng() } }
impl RngCore for ThreadRng {
    #[inline(always)]
    fn next_u32(&mut self) -> u32 { super::sym::word() as u32 }
    #[inline(always)]
    fn next_u64(&mut self) -> u64 { super::sym::word() }
    fn fill_bytes(&mut self, dest: &mut [u8]) { for b in dest.iter_mut() { *b = super::sym::word() as u8; } }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), Error> { self.fill_bytes(dest); Ok(()) }
}
impl CryptoRng for ThreadRng {}
