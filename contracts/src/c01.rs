//! C01: scalar field arithmetic equals the definition of the field.
use crate::rt::*;
use crate::spec::*;
use binius_field::arithmetic_traits::*;
use binius_field::*;

/// Binary operations against the definition.
#[cfg(not(kani))]
pub fn binop<F: Fx>(a: u128, b: u128) -> R {
    let (x, y) = (F::of(a), F::of(b));
    let want = mul(F::FAM, F::LEVEL, a, b);
    ensures!((x * y).raw() == want, "mul = field product", "{x:?} * {y:?} = {:?}, expected {want:x}", x * y);
    ensures!((x * &y).raw() == want, "mul by reference = field product", "{x:?} * {y:?}");
    let mut z = x;
    z *= y;
    ensures!(z.raw() == want, "mul_assign = field product", "{x:?} *= {y:?} -> {z:?}");
    let mut z = x;
    z *= &y;
    ensures!(z.raw() == want, "mul_assign by reference = field product", "{x:?} *= {y:?} -> {z:?}");
    ensures!((x + y).raw() == a ^ b && (x + &y).raw() == a ^ b, "add = xor", "{x:?} + {y:?}");
    ensures!((x - y).raw() == a ^ b && (x - &y).raw() == a ^ b, "sub = xor", "{x:?} - {y:?}");
    let (mut p, mut q, mut r, mut t) = (x, x, x, x);
    p += y;
    q += &y;
    r -= y;
    t -= &y;
    ensures!(p.raw() == a ^ b && q.raw() == a ^ b, "add_assign = xor", "{x:?} + {y:?}");
    ensures!(r.raw() == a ^ b && t.raw() == a ^ b, "sub_assign = xor", "{x:?} - {y:?}");
    ensures!((x == y) == (a == b), "equality = representation equality", "{x:?} {y:?}");
    let l = [x, y, x + y];
    ensures!(l.iter().sum::<F>() == F::ZERO && l.iter().copied().sum::<F>() == F::ZERO, "sum", "{l:?}");
    let p3 = mul(F::FAM, F::LEVEL, want, a ^ b);
    ensures!(l.iter().product::<F>().raw() == p3 && l.iter().copied().product::<F>().raw() == p3, "product", "{l:?}");
    ensures!(util::eq(x, y).raw() == a ^ b ^ one(F::FAM), "eq indicator xy + (1-x)(1-y) = x + y + 1", "{x:?} {y:?}");
    Ok(())
}

/// Unary operations.
#[cfg(not(kani))]
pub fn unop<F: Fx>(a: u128) -> R {
    let x = F::of(a);
    let sq = mul(F::FAM, F::LEVEL, a, a);
    ensures!(Square::square(x).raw() == sq, "square = field square", "{x:?}^2 = {:?}, expected {sq:x}", Square::square(x));
    ensures!((-x).raw() == a, "neg = identity", "{x:?}");
    ensures!(x.double() == F::ZERO, "double = 0", "{x:?}");
    ensures!(x.is_zero() == (a == 0), "is_zero", "{x:?}");
    let iv = InvertOrZero::invert_or_zero(x);
    let prod = mul(F::FAM, F::LEVEL, a, iv.raw());
    if a == 0 {
        ensures!(iv.raw() == 0, "invert_or_zero(0) = 0", "{iv:?}");
        ensures!(x.invert().is_none(), "invert(0) = None");
    } else {
        ensures!(prod == one(F::FAM), "x * invert_or_zero(x) = 1", "x={x:?} inv={iv:?}");
        ensures!(x.invert() == Some(iv), "invert(x) = Some(inverse)", "x={x:?}");
    }
    ensures!(F::ZERO.raw() == 0 && F::ONE.raw() == one(F::FAM) && F::CHARACTERISTIC == 2, "constants");
    let w: Vec<F> = util::powers(x).take(4).collect();
    ensures!(w[0] == F::ONE && w[1] == x && w[2].raw() == sq && w[3].raw() == mul(F::FAM, F::LEVEL, sq, a), "powers", "{x:?}");
    Ok(())
}

#[cfg(not(kani))]
pub fn powers<F: Fx>(s: &mut impl Src) -> R {
    let a = s.word(F::NB);
    let n = s.range(0, 3);
    let e: Vec<u64> = (0..n).map(|_| s.u64()).collect();
    let mut want = one(F::FAM);
    for w in e.iter().rev() {
        for i in (0..64).rev() {
            want = mul(F::FAM, F::LEVEL, want, want);
            if (w >> i) & 1 == 1 {
                want = mul(F::FAM, F::LEVEL, want, a);
            }
        }
    }
    let x = F::of(a);
    ensures!(Field::pow(&x, &e).raw() == want, "pow = repeated product", "{x:?}^{e:?}");
    ensures!(Field::pow_vartime(&x, &e).raw() == want, "pow_vartime = repeated product", "{x:?}^{e:?}");
    Ok(())
}

#[cfg(not(kani))]
pub fn tower_ops<F: Fx + TowerField + MulAlpha>(a: u128) -> R
where
    F::Canonical: From<F>,
{
    let x = F::of(a);
    // multiplication by the tower generator of this field
    if F::FAM != Fam::Polyval {
        let g = if F::LEVEL == 0 { 1 } else { prim(F::FAM, F::LEVEL - 1) };
        let w = mul(F::FAM, F::LEVEL, a, g);
        ensures!(x.mul_alpha().raw() == w, "mul_alpha = product with the tower generator", "{x:?} -> {:?}, expected {w:x}", x.mul_alpha());
        for iota in 0..9usize {
            let r = x.mul_primitive(iota);
            if iota < F::LEVEL as usize {
                let w = mul(F::FAM, F::LEVEL, a, prim(F::FAM, iota as u32));
                ensures!(r.as_ref().is_ok_and(|v| v.raw() == w), "mul_primitive(iota) = product with X_iota", "{x:?} iota={iota} -> {r:?}, expected {w:x}");
            } else {
                ensures!(r.is_err(), "mul_primitive out of range is an error", "{x:?} iota={iota} -> {r:?}");
            }
        }
        let lv = x.min_tower_level();
        let valid: Vec<usize> = match F::FAM {
            Fam::Aes => [0, 3, 4, 5, 6, 7].into_iter().filter(|l| *l <= F::LEVEL as usize).collect(),
            _ => (0..=F::LEVEL as usize).collect(),
        };
        let fits = |l: usize| (1u32 << l) >= 128 || a >> (1u32 << l) == 0;
        let want = valid.iter().copied().find(|l| fits(*l)).unwrap();
        ensures!(lv == want, "min_tower_level = smallest level that fits", "{x:?} -> {lv}, expected {want}");
    }
    ensures!(F::TOWER_LEVEL == F::LEVEL as usize, "tower level constant");
    Ok(())
}

/// Mixed operand products: G is a subfield of F.
#[cfg(not(kani))]
pub fn mixed<F: Fx + ExtensionField<G>, G: Fx>(s: &mut impl Src) -> R {
    let (a, b) = (s.word(F::NB), s.word(G::NB));
    let (x, y) = (F::of(a), G::of(b));
    let emb = if G::NB == 1 { b * one(F::FAM) } else { b };
    let w = mul(F::FAM, F::LEVEL, a, emb);
    ensures!((x * y).raw() == w, "mixed product = product with embedded operand", "{x:?} * {y:?} = {:?}, expected {w:x}", x * y);
    ensures!((x + y).raw() == a ^ emb && (x - y).raw() == a ^ emb, "mixed sum = sum with embedded operand", "{x:?} {y:?}");
    let (mut p, mut q, mut r) = (x, x, x);
    p *= y;
    q += y;
    r -= y;
    ensures!(p.raw() == w && q.raw() == a ^ emb && r.raw() == a ^ emb, "mixed assign operators", "{x:?} {y:?}");
    ensures!(F::from(y).raw() == emb, "embedding of a subfield element", "{y:?}");
    Ok(())
}
/// Subfield element on the left.
#[cfg(not(kani))]
pub fn mixed_left<F: Fx, G: Fx + std::ops::Mul<F, Output = F> + std::ops::Add<F, Output = F> + std::ops::Sub<F, Output = F>>(s: &mut impl Src) -> R {
    let (a, b) = (s.word(F::NB), s.word(G::NB));
    let (x, y) = (F::of(a), G::of(b));
    let emb = if G::NB == 1 { b * one(F::FAM) } else { b };
    let w = mul(F::FAM, F::LEVEL, a, emb);
    ensures!((y * x).raw() == w, "left mixed product", "{y:?} * {x:?}");
    ensures!((y + x).raw() == a ^ emb && (y - x).raw() == a ^ emb, "left mixed sum", "{y:?} {x:?}");
    Ok(())
}

/// The multiplicative generator generates the whole multiplicative group.
#[cfg(not(kani))]
pub fn generator<F: Fx + BinaryField>() -> R {
    let n = F::NB;
    let order: u128 = if n == 128 { !0 } else { (1u128 << n) - 1 };
    let g = F::MULTIPLICATIVE_GENERATOR.raw();
    ensures!(pow(F::FAM, F::LEVEL, g, order) == one(F::FAM), "generator^(2^n-1) = 1");
    // prime factors of 2^128 - 1 (Fermat numbers F0..F6)
    for p in [3u128, 5, 17, 257, 641, 6700417, 65537, 274177, 67280421310721] {
        if order % p == 0 && order > 1 {
            ensures!(pow(F::FAM, F::LEVEL, g, order / p) != one(F::FAM), "generator order is not a proper divisor", "p={p}");
        }
    }
    Ok(())
}

/// inner products
#[cfg(not(kani))]
pub fn inner<F: Fx>(s: &mut impl Src) -> R {
    let n = s.range(0, 9);
    let (xs, ys) = (els::<F>(s, n), els::<F>(s, n));
    let w = xs.iter().zip(&ys).fold(0, |w, (x, y)| w ^ mul(F::FAM, F::LEVEL, x.raw(), y.raw()));
    let r: F = util::inner_product_unchecked(xs.iter().copied(), ys.iter().copied());
    ensures!(r.raw() == w, "inner_product = sum of products", "{xs:?} {ys:?}");
    Ok(())
}

#[cfg(not(kani))]
pub fn register(r: &mut Runner) {
    obligations(r);
    macro_rules! big {
        ($($t:ident)*) => {$(
            let n = stringify!($t);
            r.sampled(&format!("{n}.binop"), "Add/Sub/Mul/assign/Sum/Product", 40000, |s| { let a = s.word($t::NB); let b = s.word($t::NB); binop::<$t>(a, b) });
            r.sampled(&format!("{n}.unop"), "Square/InvertOrZero/invert/Neg/double", 40000, |s| { let a = s.word($t::NB); unop::<$t>(a) });
            r.sampled(&format!("{n}.pow"), "Field::pow/pow_vartime", 500, powers::<$t>);
            r.sampled(&format!("{n}.inner"), "util::inner_product_unchecked", 500, inner::<$t>);
            r.exhaustive(&format!("{n}.generator"), "MULTIPLICATIVE_GENERATOR", "1 constant", 1, |_| generator::<$t>());
            // every pair of basis elements (bilinearity makes these determine the product)
            r.exhaustive(&format!("{n}.basis_products"), "Mul on all pairs of basis bits", "all pairs of single-bit operands", ($t::NB * $t::NB) as u64,
                |s| { let i = s.index() as u32; binop::<$t>(1u128 << (i / $t::NB), 1u128 << (i % $t::NB)) });
            r.exhaustive(&format!("{n}.basis_unary"), "Square/Invert on all basis bits", "all single-bit operands", $t::NB as u64, |s| unop::<$t>(1u128 << s.index()));
        )*};
    }
    big!(BinaryField1b BinaryField2b BinaryField4b BinaryField8b BinaryField16b BinaryField32b BinaryField64b BinaryField128b
         AESTowerField8b AESTowerField16b AESTowerField32b AESTowerField64b AESTowerField128b BinaryField128bPolyval);
    macro_rules! tow {
        ($($t:ident)*) => {$(
            r.sampled(&format!("{}.tower", stringify!($t)), "MulAlpha/mul_primitive/min_tower_level", 20000, |s| { let a = s.word($t::NB); tower_ops::<$t>(a) });
            r.exhaustive(&format!("{}.tower_basis", stringify!($t)), "MulAlpha/mul_primitive on basis bits", "all single-bit operands", $t::NB as u64, |s| tower_ops::<$t>(1u128 << s.index()));
        )*};
    }
    tow!(BinaryField1b BinaryField2b BinaryField4b BinaryField8b BinaryField16b BinaryField32b BinaryField64b BinaryField128b
         AESTowerField8b AESTowerField16b AESTowerField32b AESTowerField64b AESTowerField128b);
    macro_rules! small {
        ($($t:ident)*) => {$(
            let q = 1u64 << $t::NB;
            r.exhaustive(&format!("{}.binop_all", stringify!($t)), "Add/Sub/Mul/...", "all operand pairs", q * q, move |s| { let i = s.index(); binop::<$t>((i / q) as u128, (i % q) as u128) });
        )*};
    }
    small!(BinaryField1b BinaryField2b BinaryField4b BinaryField8b AESTowerField8b);
    macro_rules! unary {
        ($($t:ident)*) => {$(
            r.exhaustive(&format!("{}.unop_all", stringify!($t)), "Square/InvertOrZero/MulAlpha/...", "all operands", 1u64 << $t::NB, |s| { let i = s.index() as u128; unop::<$t>(i)?; tower_ops::<$t>(i) });
        )*};
    }
    unary!(BinaryField1b BinaryField2b BinaryField4b BinaryField8b BinaryField16b AESTowerField8b AESTowerField16b);
    macro_rules! mix {
        ($($f:ident > $($g:ident)*;)*) => {$($(
            r.sampled(&format!("{}x{}.mixed", stringify!($f), stringify!($g)), "mixed-field operators", 4000, |s| { mixed::<$f, $g>(s)?; mixed_left::<$f, $g>(s) });
        )*)*};
    }
    mix! {
        BinaryField128b > BinaryField1b BinaryField2b BinaryField4b BinaryField8b BinaryField16b BinaryField32b BinaryField64b;
        BinaryField64b > BinaryField1b BinaryField2b BinaryField4b BinaryField8b BinaryField16b BinaryField32b;
        BinaryField32b > BinaryField1b BinaryField2b BinaryField4b BinaryField8b BinaryField16b;
        BinaryField16b > BinaryField1b BinaryField2b BinaryField4b BinaryField8b;
        BinaryField8b > BinaryField1b BinaryField2b BinaryField4b;
        BinaryField4b > BinaryField1b BinaryField2b;
        BinaryField2b > BinaryField1b;
        AESTowerField128b > BinaryField1b AESTowerField8b AESTowerField16b AESTowerField32b AESTowerField64b;
        AESTowerField64b > BinaryField1b AESTowerField8b AESTowerField16b AESTowerField32b;
        AESTowerField32b > BinaryField1b AESTowerField8b AESTowerField16b;
        AESTowerField16b > BinaryField1b AESTowerField8b;
        AESTowerField8b > BinaryField1b;
        BinaryField128bPolyval > BinaryField1b;
    }
}

// ---- deductive obligations: contracts over symbolic operands; complete = the whole operand domain ----
fn k_mul<F: Fx>(s: &mut impl Src) -> R {
    let (a, b) = (s.word(F::NB), s.word(F::NB));
    ensures!((F::of(a) * F::of(b)).raw() == tmul_def(F::LEVEL, a, b), "mul = field product");
    Ok(())
}
/// Tower product in Karatsuba form over the (separately proved) 8-bit product of the code.
fn kar(level: u32, a: u128, b: u128) -> u128 {
    if level == 3 {
        return (BinaryField8b::of(a) * BinaryField8b::of(b)).raw();
    }
    let h = 1u32 << (level - 1);
    let m = (1u128 << h) - 1;
    let (a0, a1, b0, b1) = (a & m, a >> h, b & m, b >> h);
    let z0 = kar(level - 1, a0, b0);
    let z2 = kar(level - 1, a1, b1);
    let z1 = kar(level - 1, a0 ^ a1, b0 ^ b1) ^ z0 ^ z2;
    (z0 ^ z2) | ((z1 ^ spec_alpha(level - 1, z2)) << h)
}
fn k_mul_kar<F: Fx>(s: &mut impl Src) -> R {
    let (a, b) = (s.word(F::NB), s.word(F::NB));
    ensures!((F::of(a) * F::of(b)).raw() == kar(F::LEVEL, a, b), "mul = tower product over the half-size field");
    Ok(())
}
/// Product with a subfield operand acts on each coefficient.
fn k_mixed<F: Fx + ExtensionField<G>, G: Fx>(s: &mut impl Src) -> R {
    let (a, b) = (s.word(F::NB), s.word(G::NB));
    let y = G::of(b);
    let mut want = 0u128;
    let mut i = 0;
    while i < F::NB {
        want |= (G::of((a >> i) & ((1u128 << G::NB) - 1)) * y).raw() << i;
        i += G::NB;
    }
    ensures!((F::of(a) * y).raw() == want, "product with a subfield element acts coefficientwise");
    ensures!(F::from(y).raw() == b, "embedding keeps the low bits");
    ensures!((F::of(a) + y).raw() == a ^ b, "sum with a subfield element");
    Ok(())
}
fn k_mul_aes(s: &mut impl Src) -> R {
    let (a, b) = (s.u8(), s.u8());
    ensures!((AESTowerField8b::of(a as u128) * AESTowerField8b::of(b as u128)).raw() == aes_mul8(a, b) as u128, "mul = AES field product");
    Ok(())
}
fn k_add<F: Fx>(s: &mut impl Src) -> R {
    let (a, b) = (s.word(F::NB), s.word(F::NB));
    let (x, y) = (F::of(a), F::of(b));
    ensures!((x + y).raw() == a ^ b && (x + &y).raw() == a ^ b, "add = xor");
    ensures!((x - y).raw() == a ^ b && (x - &y).raw() == a ^ b, "sub = xor");
    ensures!((-x).raw() == a, "neg = identity");
    ensures!(x.double() == F::ZERO, "double = 0");
    ensures!(x.is_zero() == (a == 0), "is_zero");
    ensures!((x == y) == (a == b), "equality = representation equality");
    let (mut p, mut q) = (x, x);
    p += y;
    q -= y;
    ensures!(p.raw() == a ^ b && q.raw() == a ^ b, "add_assign / sub_assign = xor");
    p += &y;
    q -= &y;
    ensures!(p == x && q == x, "add_assign / sub_assign by reference = xor");
    ensures!(util::eq(x, y).raw() == (a ^ b ^ F::ONE.raw()), "eq indicator = x + y + 1");
    Ok(())
}
fn k_mul_1b<F: Fx + ExtensionField<BinaryField1b>>(s: &mut impl Src) -> R {
    let (a, b) = (s.word(F::NB), s.word(1));
    let y = BinaryField1b::of(b);
    ensures!((F::of(a) * y).raw() == if b == 1 { a } else { 0 }, "product with a bit");
    ensures!((F::of(a) + y).raw() == if b == 1 { a ^ F::ONE.raw() } else { a }, "sum with a bit");
    ensures!(F::from(y) == if b == 1 { F::ONE } else { F::ZERO }, "embedding of a bit");
    Ok(())
}
fn k_sq<F: Fx>(s: &mut impl Src) -> R {
    let a = s.word(F::NB);
    ensures!(Square::square(F::of(a)).raw() == tmul_def(F::LEVEL, a, a), "square = field square");
    Ok(())
}
/// (lo + hi X)^2 = lo^2 + hi^2 + hi^2 X_below X
fn spec_sq(level: u32, a: u128) -> u128 {
    if level == 0 {
        return a;
    }
    let h = 1u32 << (level - 1);
    let (lo, hi) = (a & ((1 << h) - 1), a >> h);
    let (l2, h2) = (spec_sq(level - 1, lo), spec_sq(level - 1, hi));
    (l2 ^ h2) | (spec_alpha(level - 1, h2) << h)
}
fn k_sq_lin<F: Fx>(s: &mut impl Src) -> R {
    let a = s.word(F::NB);
    ensures!(Square::square(F::of(a)).raw() == spec_sq(F::LEVEL, a), "square = field square");
    Ok(())
}
/// (lo + hi X) X = hi + (lo + hi * X_below) X
fn spec_alpha(level: u32, a: u128) -> u128 {
    if level == 0 {
        return a;
    }
    let h = 1u32 << (level - 1);
    let (lo, hi) = (a & ((1 << h) - 1), a >> h);
    hi | ((lo ^ spec_alpha(level - 1, hi)) << h)
}
fn k_alpha<F: Fx + MulAlpha>(s: &mut impl Src) -> R {
    let a = s.word(F::NB);
    ensures!(F::of(a).mul_alpha().raw() == spec_alpha(F::LEVEL, a), "mul_alpha = product with the tower generator");
    Ok(())
}
fn k_prim<F: Fx + TowerField, const IOTA: usize>(s: &mut impl Src) -> R
where
    F::Canonical: From<F>,
{
    let a = s.word(F::NB);
    let iota = IOTA;
    let r = F::of(a).mul_primitive(iota);
    // every aligned T_{iota+1} coefficient is multiplied by the generator of T_{iota+1}
    let w = 1u32 << (iota + 1);
    let mut want = 0u128;
    let mut i = 0;
    while i < F::NB {
        let block = (a >> i) & if w == 128 { !0 } else { (1u128 << w) - 1 };
        want |= spec_alpha(iota as u32 + 1, block) << i;
        i += w;
    }
    ensures!(r.is_ok_and(|v| v.raw() == want), "mul_primitive(iota) = product with X_iota");
    Ok(())
}
fn k_inv<F: Fx>(s: &mut impl Src) -> R {
    let a = s.word(F::NB);
    let x = F::of(a);
    let iv = InvertOrZero::invert_or_zero(x);
    ensures!((a == 0) == iv.is_zero(), "inverse is zero only for zero");
    ensures!(a == 0 || tmul_def(F::LEVEL, a, iv.raw()) == 1, "x * invert(x) = 1");
    ensures!(x.invert() == if a == 0 { None } else { Some(iv) }, "invert(0) = None");
    Ok(())
}
fn k_inv_aes(s: &mut impl Src) -> R {
    let a = s.u8();
    let iv = InvertOrZero::invert_or_zero(AESTowerField8b::of(a as u128)).raw() as u8;
    ensures!(if a == 0 { iv == 0 } else { aes_mul8(a, iv) == 1 }, "x * invert(x) = 1 (AES)");
    Ok(())
}
crate::obligations! {
    c01_mul_1b, quick, 200, "complete", "BinaryField1b Mul", k_mul::<BinaryField1b>;
    c01_mul_2b, quick, 200, "complete", "BinaryField2b Mul", k_mul::<BinaryField2b>;
    c01_mul_4b, quick, 200, "complete", "BinaryField4b Mul", k_mul::<BinaryField4b>;
    c01_mul_8b, quick, 200, "complete", "BinaryField8b Mul", k_mul::<BinaryField8b>;
    c01_mul_aes8b, quick, 200, "complete", "AESTowerField8b Mul", k_mul_aes;
    c01_add_8b, quick, 200, "complete", "BinaryField8b Add/Sub/Neg/Eq", k_add::<BinaryField8b>;
    c01_add_16b, quick, 200, "complete", "BinaryField16b Add/Sub/Neg/Eq", k_add::<BinaryField16b>;
    c01_add_32b, quick, 200, "complete", "BinaryField32b Add/Sub/Neg/Eq", k_add::<BinaryField32b>;
    c01_add_64b, quick, 200, "complete", "BinaryField64b Add/Sub/Neg/Eq", k_add::<BinaryField64b>;
    c01_add_128b, quick, 200, "complete", "BinaryField128b Add/Sub/Neg/Eq", k_add::<BinaryField128b>;
    c01_add_aes128b, quick, 200, "complete", "AESTowerField128b Add/Sub/Neg/Eq", k_add::<AESTowerField128b>;
    c01_add_polyval, quick, 200, "complete", "BinaryField128bPolyval Add/Sub/Neg/Eq", k_add::<BinaryField128bPolyval>;
    c01_bit_128b, quick, 200, "complete", "BinaryField128b x BinaryField1b", k_mul_1b::<BinaryField128b>;
    c01_bit_64b, quick, 200, "complete", "BinaryField64b x BinaryField1b", k_mul_1b::<BinaryField64b>;
    c01_bit_aes128b, quick, 200, "complete", "AESTowerField128b x BinaryField1b", k_mul_1b::<AESTowerField128b>;
    c01_bit_polyval, quick, 200, "complete", "BinaryField128bPolyval x BinaryField1b", k_mul_1b::<BinaryField128bPolyval>;
    c01_sq_4b, quick, 200, "complete", "BinaryField4b square", k_sq::<BinaryField4b>;
    c01_sq_8b, quick, 200, "complete", "BinaryField8b square", k_sq::<BinaryField8b>;
    c01_sq_16b, quick, 200, "complete", "BinaryField16b square", k_sq::<BinaryField16b>;
    c01_inv_2b, quick, 200, "complete", "BinaryField2b invert", k_inv::<BinaryField2b>;
    c01_inv_4b, quick, 200, "complete", "BinaryField4b invert", k_inv::<BinaryField4b>;
    c01_inv_8b, quick, 200, "complete", "BinaryField8b invert", k_inv::<BinaryField8b>;
    c01_inv_aes8b, quick, 200, "complete", "AESTowerField8b invert", k_inv_aes;
    c01_alpha_8b, quick, 200, "complete", "BinaryField8b mul_alpha", k_alpha::<BinaryField8b>;
    c01_alpha_16b, quick, 200, "complete", "BinaryField16b mul_alpha", k_alpha::<BinaryField16b>;
    c01_alpha_32b, quick, 200, "complete", "BinaryField32b mul_alpha", k_alpha::<BinaryField32b>;
    c01_alpha_64b, quick, 200, "complete", "BinaryField64b mul_alpha", k_alpha::<BinaryField64b>;
    c01_alpha_128b, quick, 200, "complete", "BinaryField128b mul_alpha", k_alpha::<BinaryField128b>;
    c01_prim_16b_0, quick, 200, "complete", "BinaryField16b mul_primitive(0)", k_prim::<BinaryField16b, 0>;
    c01_prim_16b_1, quick, 200, "complete", "BinaryField16b mul_primitive(1)", k_prim::<BinaryField16b, 1>;
    c01_prim_16b_2, quick, 200, "complete", "BinaryField16b mul_primitive(2)", k_prim::<BinaryField16b, 2>;
    c01_prim_16b_3, quick, 200, "complete", "BinaryField16b mul_primitive(3)", k_prim::<BinaryField16b, 3>;
    c01_prim_128b_0, quick, 200, "complete", "BinaryField128b mul_primitive(0)", k_prim::<BinaryField128b, 0>;
    c01_prim_128b_1, quick, 200, "complete", "BinaryField128b mul_primitive(1)", k_prim::<BinaryField128b, 1>;
    c01_prim_128b_2, quick, 200, "complete", "BinaryField128b mul_primitive(2)", k_prim::<BinaryField128b, 2>;
    c01_prim_128b_3, quick, 200, "complete", "BinaryField128b mul_primitive(3)", k_prim::<BinaryField128b, 3>;
    c01_prim_128b_4, quick, 200, "complete", "BinaryField128b mul_primitive(4)", k_prim::<BinaryField128b, 4>;
    c01_prim_128b_5, quick, 200, "complete", "BinaryField128b mul_primitive(5)", k_prim::<BinaryField128b, 5>;
    c01_prim_128b_6, quick, 200, "complete", "BinaryField128b mul_primitive(6)", k_prim::<BinaryField128b, 6>;
    c01_sq_32b, quick, 200, "complete", "BinaryField32b square", k_sq_lin::<BinaryField32b>;
    c01_sq_128b, thorough, 200, "complete", "BinaryField128b square", k_sq_lin::<BinaryField128b>;
    c01_mulk_16b, quick, 200, "complete", "BinaryField16b Mul", k_mul_kar::<BinaryField16b>;
    c01_mulk_32b, thorough, 200, "complete", "BinaryField32b Mul", k_mul_kar::<BinaryField32b>;
    c01_mulk_64b, thorough, 200, "complete", "BinaryField64b Mul", k_mul_kar::<BinaryField64b>;
    c01_mulk_128b, thorough, 200, "complete", "BinaryField128b Mul", k_mul_kar::<BinaryField128b>;
    c01_mixed_16_8, quick, 200, "complete", "BinaryField16b x BinaryField8b", k_mixed::<BinaryField16b, BinaryField8b>;
    c01_mixed_128_8, thorough, 200, "complete", "BinaryField128b x BinaryField8b", k_mixed::<BinaryField128b, BinaryField8b>;
    c01_mul_16b, thorough, 200, "complete", "BinaryField16b Mul", k_mul::<BinaryField16b>;
    c01_inv_16b, thorough, 200, "complete", "BinaryField16b invert", k_inv::<BinaryField16b>;
}
