//! Reference definitions, independent of the repository's code.

use crate::rt::Src as _;

/// Recursive tower multiplication by definition: T_{k+1} = T_k[X_k] / (X_k^2 + X_{k-1} X_k + 1),
/// X_{-1} = 1; an element of level k is lo + hi * X_{k-1}, lo in the low bits.
pub fn tmul_def(level: u32, a: u128, b: u128) -> u128 {
    if level == 0 {
        return a & b & 1;
    }
    let h = 1u32 << (level - 1);
    let m = (1u128 << h) - 1;
    let (a0, a1, b0, b1) = (a & m, a >> h, b & m, b >> h);
    let z0 = tmul_def(level - 1, a0, b0);
    let z2 = tmul_def(level - 1, a1, b1);
    let z1 = tmul_def(level - 1, a0, b1) ^ tmul_def(level - 1, a1, b0);
    let alpha = if level == 1 { 1 } else { 1u128 << (h / 2) };
    let z2a = tmul_def(level - 1, z2, alpha);
    (z0 ^ z2) | ((z1 ^ z2a) << h)
}

/// GF(2^8) with the AES polynomial.
pub fn aes_mul8(a: u8, b: u8) -> u8 {
    let mut r = 0u16;
    let mut i = 0;
    while i < 8 {
        if (b >> i) & 1 == 1 {
            r ^= (a as u16) << i;
        }
        i += 1;
    }
    let mut i = 14;
    while i >= 8 {
        if (r >> i) & 1 == 1 {
            r ^= 0x11b << (i - 8);
        }
        i -= 1;
    }
    r as u8
}

#[cfg(not(kani))]
pub use tables::*;
#[cfg(not(kani))]
mod tables {
    use super::*;
    use std::sync::OnceLock;
    fn t8() -> &'static [[u8; 256]; 256] {
        static T: OnceLock<Box<[[u8; 256]; 256]>> = OnceLock::new();
        T.get_or_init(|| {
            let mut t = Box::new([[0u8; 256]; 256]);
            for a in 0..256 {
                for b in 0..256 {
                    t[a][b] = tmul_def(3, a as u128, b as u128) as u8;
                }
            }
            t
        })
    }
    fn a8() -> &'static [[u8; 256]; 256] {
        static T: OnceLock<Box<[[u8; 256]; 256]>> = OnceLock::new();
        T.get_or_init(|| {
            let mut t = Box::new([[0u8; 256]; 256]);
            for a in 0..256 {
                for b in 0..256 {
                    t[a][b] = aes_mul8(a as u8, b as u8);
                }
            }
            t
        })
    }
    fn rec(base: &[[u8; 256]; 256], alpha8: u128, level: u32, a: u128, b: u128) -> u128 {
        if level == 3 {
            return base[a as usize][b as usize] as u128;
        }
        let h = 1u32 << (level - 1);
        let m = (1u128 << h) - 1;
        let (a0, a1, b0, b1) = (a & m, a >> h, b & m, b >> h);
        let z0 = rec(base, alpha8, level - 1, a0, b0);
        let z2 = rec(base, alpha8, level - 1, a1, b1);
        let z1 = rec(base, alpha8, level - 1, a0 ^ a1, b0 ^ b1) ^ z0 ^ z2;
        let alpha = if level == 4 { alpha8 } else { 1u128 << (h / 2) };
        let z2a = rec(base, alpha8, level - 1, z2, alpha);
        (z0 ^ z2) | ((z1 ^ z2a) << h)
    }
    /// Canonical tower product at any level.
    pub fn tmul(level: u32, a: u128, b: u128) -> u128 {
        if level < 3 { tmul_def(level, a, b) } else { rec(t8(), 0x10, level, a, b) }
    }
    /// AES tower product: base AES field, X_3^2 + x X_3 + 1 with x the image 0xd3 of 0x10, then as the canonical tower.
    pub fn amul(level: u32, a: u128, b: u128) -> u128 {
        rec(a8(), 0xd3, level, a, b)
    }
    /// POLYVAL: GF(2)[X]/(X^128+X^127+X^126+X^121+1), product of Montgomery representatives a*b*X^-128.
    pub fn pmul(a: u128, b: u128) -> u128 {
        // interleaved multiplication and division by X: r = (r + a*b_i) / X, 128 times
        let mut r = 0u128;
        for i in 0..128 {
            if (b >> i) & 1 == 1 {
                r ^= a;
            }
            // divide r by X modulo P = X^128+X^127+X^126+X^121+1
            let low = r & 1;
            r >>= 1;
            if low == 1 {
                // (r + P)/X: P/X without the constant term: X^127+X^126+X^125+X^120
                r ^= (1 << 127) | (1 << 126) | (1 << 125) | (1 << 120);
            }
        }
        r
    }
    pub const PONE: u128 = 0xc2000000000000000000000000000001;
    #[derive(Clone, Copy, PartialEq, Eq, Debug)]
    pub enum Fam {
        Tower,
        Aes,
        Polyval,
    }
    pub fn mul(fam: Fam, level: u32, a: u128, b: u128) -> u128 {
        match fam {
            Fam::Tower => tmul(level, a, b),
            Fam::Aes => amul(level, a, b),
            Fam::Polyval => pmul(a, b),
        }
    }
    pub fn one(fam: Fam) -> u128 {
        if fam == Fam::Polyval { PONE } else { 1 }
    }
    pub fn pow(fam: Fam, level: u32, a: u128, mut e: u128) -> u128 {
        let (mut r, mut b) = (one(fam), a);
        while e > 0 {
            if e & 1 == 1 {
                r = mul(fam, level, r, b);
            }
            b = mul(fam, level, b, b);
            e >>= 1;
        }
        r
    }
    /// Inverse by Fermat: a^(2^n - 2); zero maps to zero.
    pub fn inv(fam: Fam, level: u32, a: u128) -> u128 {
        let n = 1u32 << level;
        // a^(2+4+...+2^(n-1))
        let mut r = one(fam);
        let mut s = a;
        for _ in 1..n {
            s = mul(fam, level, s, s);
            r = mul(fam, level, r, s);
        }
        if n == 1 { a } else { r }
    }
    /// Primitive element X_{level} of T_{level+1} as an element of a level > `iota` field.
    pub fn prim(fam: Fam, iota: u32) -> u128 {
        match fam {
            Fam::Tower => 1u128 << (1 << iota),
            Fam::Aes => match iota {
                0 => 0xbc,
                1 => 0xb0,
                2 => 0xd3,
                _ => 1u128 << (1 << iota),
            },
            Fam::Polyval => unimplemented!(),
        }
    }
}

/// Scalar field types with access to their representation.
pub trait Fx: binius_field::Field {
    const NB: u32;
    const LEVEL: u32;
    #[cfg(not(kani))]
    const FAM: Fam;
    fn of(v: u128) -> Self;
    fn raw(self) -> u128;
}
macro_rules! fx {
    ($($t:ident $u:ident $lvl:expr, $fam:ident;)*) => {$(
        impl Fx for binius_field::$t {
            const NB: u32 = 1 << $lvl;
            const LEVEL: u32 = $lvl;
            #[cfg(not(kani))]
            const FAM: Fam = Fam::$fam;
            fn of(v: u128) -> Self { fx!(@of $u, v) }
            fn raw(self) -> u128 { fx!(@raw $u, self) }
        }
    )*};
    (@of small, $v:expr) => { <Self as binius_field::underlier::WithUnderlier>::from_underlier(<<Self as binius_field::underlier::WithUnderlier>::Underlier>::new_unchecked($v as u8)) };
    (@of $u:ident, $v:expr) => { <Self as binius_field::underlier::WithUnderlier>::from_underlier($v as $u) };
    (@raw small, $s:expr) => { binius_field::underlier::WithUnderlier::to_underlier($s).val() as u128 };
    (@raw $u:ident, $s:expr) => { binius_field::underlier::WithUnderlier::to_underlier($s) as u128 };
}
fx! {
    BinaryField1b small 0, Tower;
    BinaryField2b small 1, Tower;
    BinaryField4b small 2, Tower;
    BinaryField8b u8 3, Tower;
    BinaryField16b u16 4, Tower;
    BinaryField32b u32 5, Tower;
    BinaryField64b u64 6, Tower;
    BinaryField128b u128 7, Tower;
    AESTowerField8b u8 3, Aes;
    AESTowerField16b u16 4, Aes;
    AESTowerField32b u32 5, Aes;
    AESTowerField64b u64 6, Aes;
    AESTowerField128b u128 7, Aes;
    BinaryField128bPolyval u128 7, Polyval;
}

/// A field element from the value source.
pub fn el<F: Fx>(s: &mut impl crate::rt::Src) -> F {
    F::of(s.word(F::NB))
}
pub fn els<F: Fx>(s: &mut impl crate::rt::Src, n: usize) -> Vec<F> {
    (0..n).map(|_| el(s)).collect()
}

/// n lane values; beyond 32 lanes most are expanded from one drawn seed.
#[cfg(not(kani))]
pub fn lanes<F: Fx>(s: &mut crate::rt::NSrc, n: usize) -> Vec<u128> {
    if n <= 32 {
        return (0..n).map(|_| s.word(F::NB)).collect();
    }
    let mut r = crate::rt::Rng(s.u64());
    let style = s.below(3);
    let m = if F::NB == 128 { !0 } else { (1u128 << F::NB) - 1 };
    let mut v: Vec<u128> = (0..n)
        .map(|_| match style {
            0 => r.next128() & m,
            1 => 0,
            _ => if r.next() % 3 == 0 { r.next128() & m } else { (r.next() % 2) as u128 },
        })
        .collect();
    for _ in 0..8 {
        let i = s.below(n);
        v[i] = s.word(F::NB);
    }
    v
}
#[cfg(not(kani))]
pub fn pk<P: binius_field::PackedField<Scalar: Fx>>(v: &[u128]) -> P {
    P::from_fn(|i| P::Scalar::of(v[i]))
}
#[cfg(not(kani))]
pub fn upk<P: binius_field::PackedField<Scalar: Fx>>(p: &P) -> Vec<u128> {
    (0..P::WIDTH).map(|i| p.get(i).raw()).collect()
}
