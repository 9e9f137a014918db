//! A small digest and compression function, so that contracts of code that is generic over the hash can be stated and discharged.
use binius_hash::PseudoCompressionFunction;
use digest::{FixedOutput, FixedOutputReset, HashMarker, Output, OutputSizeUser, Reset, Update, consts::{U2, U4}, core_api::BlockSizeUser};

/// A small hash used to state the challenger's contract for an arbitrary digest.
#[derive(Clone, Default, Debug)]
pub struct Toy(pub u16);
impl Toy {
    pub fn byte(&mut self, b: u8) {
        self.0 = self.0.rotate_left(3).wrapping_add(b as u16 ^ 0x5a7);
    }
}
impl HashMarker for Toy {}
impl OutputSizeUser for Toy {
    type OutputSize = U2;
}
impl BlockSizeUser for Toy {
    type BlockSize = U4;
}
impl Update for Toy {
    fn update(&mut self, d: &[u8]) {
        for b in d {
            self.byte(*b);
        }
    }
}
impl Reset for Toy {
    fn reset(&mut self) {
        self.0 = 0;
    }
}
impl FixedOutput for Toy {
    fn finalize_into(self, out: &mut Output<Self>) {
        let b = self.0.to_le_bytes();
        out[0] = b[0];
        out[1] = b[1];
    }
}
impl FixedOutputReset for Toy {
    fn finalize_into_reset(&mut self, out: &mut Output<Self>) {
        let b = self.0.to_le_bytes();
        out[0] = b[0];
        out[1] = b[1];
        self.0 = 0;
    }
}


/// Two-to-one compression, not symmetric in its inputs.
#[derive(Clone, Default, Debug)]
pub struct ToyComp;
pub fn toy_compress(a: [u8; 2], b: [u8; 2]) -> [u8; 2] {
    [a[0].wrapping_mul(3) ^ b[1] ^ 0x11, a[1].wrapping_add(b[0].rotate_left(1)) ^ 0x2c]
}
impl PseudoCompressionFunction<Output<Toy>, 2> for ToyComp {
    fn compress(&self, input: [Output<Toy>; 2]) -> Output<Toy> {
        toy_compress([input[0][0], input[0][1]], [input[1][0], input[1][1]]).into()
    }
}

/// A challenger whose challenges are given in advance, so that contracts of verifiers quantify over all challenge sequences.
#[cfg(feature = "core")]
pub mod tape {
    use bytes::{Buf, BufMut};
    pub const N: usize = if cfg!(kani) { 8 } else { 2048 };
    #[derive(Debug, Clone)]
    pub struct Sam {
        v: [u8; N],
        i: usize,
    }
    #[cfg(kani)]
    static mut T: [u8; N] = [0; N];
    #[cfg(kani)]
    pub fn set(t: [u8; N]) {
        unsafe { T = t }
    }
    #[cfg(kani)]
    fn get() -> [u8; N] {
        unsafe { T }
    }
    #[cfg(not(kani))]
    thread_local! { static T: std::cell::RefCell<[u8; N]> = const { std::cell::RefCell::new([0; N]) }; }
    #[cfg(not(kani))]
    pub fn set(t: [u8; N]) {
        T.with(|x| *x.borrow_mut() = t)
    }
    #[cfg(not(kani))]
    fn get() -> [u8; N] {
        T.with(|x| *x.borrow())
    }
    impl Default for Sam {
        fn default() -> Self {
            Sam { v: get(), i: 0 }
        }
    }
    impl Buf for Sam {
        fn remaining(&self) -> usize {
            N - self.i
        }
        fn chunk(&self) -> &[u8] {
            &self.v[self.i..]
        }
        fn advance(&mut self, c: usize) {
            self.i += c;
        }
    }
    #[derive(Debug, Default, Clone)]
    pub struct Tape {
        o: Vec<u8>,
        s: Sam,
    }
    impl binius_core::fiat_shamir::Challenger for Tape {
        fn sampler(&mut self) -> &mut impl Buf {
            &mut self.s
        }
        fn observer(&mut self) -> &mut impl BufMut {
            &mut self.o
        }
    }
}
