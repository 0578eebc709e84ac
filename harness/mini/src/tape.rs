use rand_core::{CryptoRng, RngCore};
/// A generator that plays back a fixed byte string and panics beyond its end.
pub struct Tape<'a>(pub &'a [u8]);
impl RngCore for Tape<'_> {
    fn next_u32(&mut self) -> u32 {
        let mut b = [0; 4];
        self.fill_bytes(&mut b);
        u32::from_le_bytes(b)
    }
    fn next_u64(&mut self) -> u64 {
        let mut b = [0; 8];
        self.fill_bytes(&mut b);
        u64::from_le_bytes(b)
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        assert!(dest.len() <= self.0.len(), "more random bytes drawn than specified");
        let (a, b) = self.0.split_at(dest.len());
        dest.copy_from_slice(a);
        self.0 = b;
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), rand_core::Error> {
        self.fill_bytes(dest);
        Ok(())
    }
}
impl CryptoRng for Tape<'_> {}
