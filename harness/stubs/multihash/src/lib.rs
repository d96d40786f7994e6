//! Stand-in for multihash: the BLAKE2b hashers.
pub trait Hasher {
    fn update(&mut self, input: &[u8]);
    fn finalize(&mut self) -> &[u8];
    fn reset(&mut self);
}
macro_rules! hasher {
    ($n:ident, $bytes:expr) => {
        #[derive(Default, Debug)]
        pub struct $n(Vec<u8>, Vec<u8>);
        impl Hasher for $n {
            fn update(&mut self, input: &[u8]) {
                self.0.extend_from_slice(input)
            }
            fn finalize(&mut self) -> &[u8] {
                self.1 = blake2::blake2b(&self.0, $bytes);
                &self.1
            }
            fn reset(&mut self) {
                self.0.clear()
            }
        }
    };
}
hasher!(Blake2b256, 32);
hasher!(Blake2b512, 64);
