//! C02: packed arithmetic acts lane by lane as the scalar definition.
use crate::rt::*;
use crate::spec::*;
use binius_field::arch::*;
use binius_field::arithmetic_traits::*;
use binius_field::packed::*;
use binius_field::*;

/// Compare lanes with their scalar definition (not generic: keeps the contract crate small).
#[cfg(not(kani))]
fn same(name: &str, got: &[u128], want: &[u128], a: &[u128], b: &[u128]) -> R {
    match (0..want.len()).find(|&i| got[i] != want[i]) {
        None => Ok(()),
        Some(i) => Err(Stop::Violated { obligation: name.into(), detail: format!("lane {i} of {}: got {:x}, expected {:x}; operands {:x} {:x}", want.len(), got[i], want[i], a[i], b[i]) }),
    }
}
#[cfg(not(kani))]
#[derive(Clone, Copy)]
pub struct Sh {
    w: usize,
    fam: Fam,
    lv: u32,
    draw: fn(&mut NSrc, usize) -> Vec<u128>,
}
#[cfg(not(kani))]
pub const fn sh<P: PackedField<Scalar: Fx>>() -> Sh {
    Sh { w: P::WIDTH, fam: P::Scalar::FAM, lv: P::Scalar::LEVEL, draw: lanes::<P::Scalar> }
}

#[cfg(not(kani))]
const BIN: [&str; 10] = ["packed mul = lane products", "packed mul_assign = lane products", "packed product = lane products", "packed add = lane sums", "packed sub = lane differences",
    "packed add_assign = lane sums", "packed sub_assign = lane differences", "packed sum = lane sums", "packed equality, equal operands", "packed equality, given operands"];
#[cfg(not(kani))]
fn bin_ops<P: PackedField<Scalar: Fx>>(a: &[u128], b: &[u128]) -> (Vec<Vec<u128>>, bool, bool) {
    let (x, y): (P, P) = (pk(a), pk(b));
    let mut z = x;
    z *= y;
    let (mut p, mut q) = (x, x);
    p += y;
    q -= y;
    let l: [P; 8] = [x * y, z, [x, y].into_iter().product(), x + y, x - y, p, q, [x, y].into_iter().sum()];
    (l.iter().map(upk).collect(), x == pk(a), x == y)
}
#[cfg(not(kani))]
pub fn binop(sh: Sh, f: fn(&[u128], &[u128]) -> (Vec<Vec<u128>>, bool, bool), s: &mut NSrc) -> R {
    let (a, b) = ((sh.draw)(s, sh.w), (sh.draw)(s, sh.w));
    let prod: Vec<u128> = (0..sh.w).map(|i| mul(sh.fam, sh.lv, a[i], b[i])).collect();
    let sum: Vec<u128> = (0..sh.w).map(|i| a[i] ^ b[i]).collect();
    let (l, e1, e2) = f(&a, &b);
    for (k, g) in l.iter().enumerate() {
        same(BIN[k], g, if k < 3 { &prod } else { &sum }, &a, &b)?;
    }
    ensures!(e1, "packed equality, equal operands", "{a:x?}");
    ensures!(e2 == (a == b), "packed equality = lane equality", "{a:x?} {b:x?}");
    Ok(())
}

#[cfg(not(kani))]
const UN: [&str; 12] = ["packed square = lane squares", "packed invert_or_zero = lane inverses", "broadcast fills every lane", "packed * scalar", "packed *= scalar", "packed + scalar", "packed - scalar",
    "packed += scalar", "packed -= scalar", "zero", "one", "packed pow = lane powers"];
#[cfg(not(kani))]
fn un_ops<P: PackedField<Scalar: Fx>>(a: &[u128], c: u128, e: u64) -> Vec<Vec<u128>> {
    let x: P = pk(a);
    let y = P::Scalar::of(c);
    let (mut m, mut p, mut q) = (x, x, x);
    m *= y;
    p += y;
    q -= y;
    let l: [P; 12] = [PackedField::square(x), PackedField::invert_or_zero(x), P::broadcast(y), x * y, m, x + y, x - y, p, q, P::zero(), P::one(), if P::WIDTH <= 64 { x.pow(e) } else { x }];
    l.iter().map(upk).collect()
}
#[cfg(not(kani))]
pub fn unop(sh: Sh, f: fn(&[u128], u128, u64) -> Vec<Vec<u128>>, s: &mut NSrc) -> R {
    let a = (sh.draw)(s, sh.w);
    let c = s.word(1 << sh.lv);
    let e = [0u64, 1, 2, 3, 5, 1 << 20, 1 << 63, u64::MAX, 0xfedcba9876543210][s.below(9)];
    let (fam, lv) = (sh.fam, sh.lv);
    let l = f(&a, c, e);
    let cc = vec![c; sh.w];
    let of = |g: &dyn Fn(u128) -> u128| a.iter().map(|v| g(*v)).collect::<Vec<u128>>();
    same(UN[0], &l[0], &of(&|v| mul(fam, lv, v, v)), &a, &a)?;
    for i in 0..sh.w {
        let ok = if a[i] == 0 { l[1][i] == 0 } else { mul(fam, lv, a[i], l[1][i]) == one(fam) };
        ensures!(ok, "packed invert_or_zero = lane inverses", "lane {i}: {:x} -> {:x}", a[i], l[1][i]);
    }
    same(UN[2], &l[2], &cc, &a, &cc)?;
    let pc = of(&|v| mul(fam, lv, v, c));
    same(UN[3], &l[3], &pc, &a, &cc)?;
    same(UN[4], &l[4], &pc, &a, &cc)?;
    let sc = of(&|v| v ^ c);
    for k in 5..9 {
        same(UN[k], &l[k], &sc, &a, &cc)?;
    }
    same(UN[9], &l[9], &of(&|_| 0), &a, &cc)?;
    same(UN[10], &l[10], &of(&|_| one(fam)), &a, &cc)?;
    if sh.w <= 64 {
        same(UN[11], &l[11], &of(&|v| pow(fam, lv, v, e as u128)), &a, &cc)?;
    }
    Ok(())
}

/// One-operand lane operations given by name: alpha multiplication and the per-strategy implementations.
#[cfg(not(kani))]
#[derive(Clone, Copy)]
pub enum K {
    Mul,
    Sq,
    Inv,
    Alpha,
}
#[cfg(not(kani))]
pub fn laneop(sh: Sh, k: K, f: fn(&[u128], &[u128]) -> Vec<u128>, s: &mut NSrc) -> R {
    let a = (sh.draw)(s, sh.w);
    let b = if let K::Mul = k { (sh.draw)(s, sh.w) } else { a.clone() };
    let (fam, lv) = (sh.fam, sh.lv);
    let g = if lv == 0 { 1 } else if let K::Alpha = k { prim(fam, lv - 1) } else { 0 };
    let (name, want): (_, Vec<u128>) = match k {
        K::Mul => ("strategy mul = lane products", (0..sh.w).map(|i| mul(fam, lv, a[i], b[i])).collect()),
        K::Sq => ("strategy square = lane squares", a.iter().map(|v| mul(fam, lv, *v, *v)).collect()),
        K::Inv => ("strategy inverse = lane inverses", a.iter().map(|v| inv(fam, lv, *v)).collect()),
        K::Alpha => ("mul_alpha = lane products with the generator", a.iter().map(|v| mul(fam, lv, *v, g)).collect()),
    };
    same(name, &f(&a, &b), &want, &a, &b)
}
#[cfg(not(kani))]
fn alpha<P: PackedField<Scalar: Fx> + MulAlpha>(a: &[u128], _: &[u128]) -> Vec<u128> {
    upk(&pk::<P>(a).mul_alpha())
}
#[cfg(not(kani))]
fn strat_mul<P: PackedField<Scalar: Fx> + TaggedMul<S>, S>(a: &[u128], b: &[u128]) -> Vec<u128> {
    upk(&TaggedMul::<S>::mul(pk::<P>(a), pk::<P>(b)))
}
#[cfg(not(kani))]
fn strat_sq<P: PackedField<Scalar: Fx> + TaggedSquare<S>, S>(a: &[u128], _: &[u128]) -> Vec<u128> {
    upk(&TaggedSquare::<S>::square(pk::<P>(a)))
}
#[cfg(not(kani))]
fn strat_inv<P: PackedField<Scalar: Fx> + TaggedInvertOrZero<S>, S>(a: &[u128], _: &[u128]) -> Vec<u128> {
    upk(&TaggedInvertOrZero::<S>::invert_or_zero(pk::<P>(a)))
}
#[cfg(not(kani))]
fn strat_alpha<P: PackedField<Scalar: Fx> + TaggedMulAlpha<S>, S>(a: &[u128], _: &[u128]) -> Vec<u128> {
    upk(&TaggedMulAlpha::<S>::mul_alpha(pk::<P>(a)))
}

/// Products of packed extension values with subfield values.
#[cfg(not(kani))]
pub fn subfield_ops<P, G>(s: &mut NSrc) -> R
where
    G: Fx,
    P: PackedField<Scalar: Fx + ExtensionField<G>> + PackedExtension<G>,
{
    let fam = P::Scalar::FAM;
    let lv = P::Scalar::LEVEL;
    let emb = |v: u128| if G::NB == 1 { v * one(fam) } else { v };
    let a = lanes::<P::Scalar>(s, P::WIDTH);
    let c = s.word(G::NB);
    let x: P = pk(&a);
    let w: Vec<u128> = a.iter().map(|v| mul(fam, lv, *v, emb(c))).collect();
    let cc = vec![c; P::WIDTH];
    same("mul_by_subfield_scalar = lane products", &upk(&mul_by_subfield_scalar::<P, G>(x, G::of(c))), &w, &a, &cc)?;
    // slices: each extension lane times the subfield element of the same index
    let d = <P::Scalar as ExtensionField<G>>::DEGREE;
    let n = s.range(1, 2);
    let ext: Vec<Vec<u128>> = (0..n * d).map(|_| lanes::<P::Scalar>(s, P::WIDTH)).collect();
    let sub: Vec<Vec<u128>> = (0..n).map(|_| lanes::<G>(s, P::PackedSubfield::WIDTH)).collect();
    let mut e1: Vec<P> = ext.iter().map(|v| pk(v)).collect();
    let mut e2 = e1.clone();
    let sp: Vec<P::PackedSubfield> = sub.iter().map(|v| P::PackedSubfield::from_fn(|i| G::of(v[i]))).collect();
    let flat: Vec<u128> = sub.concat();
    let want: Vec<u128> = ext.concat().iter().zip(&flat).map(|(u, v)| mul(fam, lv, *u, emb(*v))).collect();
    ensures!(ext_base_mul::<P, G>(&mut e1, &sp).is_ok(), "ext_base_mul accepts matching lengths");
    ensures!(ext_base_mul_par::<P, G>(&mut e2, &sp).is_ok(), "ext_base_mul_par accepts matching lengths");
    for (k, e) in [("ext_base_mul = elementwise products", &e1), ("ext_base_mul_par = elementwise products", &e2)] {
        let got: Vec<u128> = e.iter().flat_map(|p| upk(p)).collect();
        same(k, &got, &want, &ext.concat(), &flat)?;
    }
    let mut short = e1.clone();
    short.pop();
    ensures!(ext_base_mul::<P, G>(&mut short, &sp).is_err() && ext_base_mul_par::<P, G>(&mut short, &sp).is_err(), "ext_base_mul rejects mismatched lengths");
    Ok(())
}

#[cfg(not(kani))]
pub fn register(r: &mut Runner) {
    macro_rules! ar { ($($p:ident)*) => {$(
        { let n = (4000 / <$p as PackedField>::WIDTH as u64).clamp(8, 400);
        r.sampled(concat!("binary/", stringify!($p)), concat!("Mul/Add/Sub (and assigning, Sum, Product) for ", stringify!($p)), n, |s| binop(const { sh::<$p>() }, bin_ops::<$p>, s));
        r.sampled(concat!("unary/", stringify!($p)), concat!("square, invert_or_zero, pow, broadcast, scalar operands for ", stringify!($p)), (n / 2).max(8), |s| unop(const { sh::<$p>() }, un_ops::<$p>, s)); }
    )*} }
    macro_rules! al { ($($p:ident)*) => {$(
        r.sampled(concat!("alpha/", stringify!($p)), concat!("MulAlpha for ", stringify!($p)), (4000 / <$p as PackedField>::WIDTH as u64).clamp(8, 200), |s| laneop(const { sh::<$p>() }, K::Alpha, alpha::<$p>, s));
    )*} }
    scalar_fields!(ar);
    packed_tower!(ar);
    packed_aes!(ar);
    packed_polyval!(ar);
    packed_sliced!(ar);
    packed_sliced_bits!(ar);
    packed_tower!(al);
    packed_aes!(al);

    macro_rules! st { ($f:ident $k:ident $strat:ident: $($p:ident)*) => {$(
        r.sampled(concat!(stringify!($f), "/", stringify!($strat), "/", stringify!($p)), concat!(stringify!($strat), " implementation for ", stringify!($p)), 60, |s| laneop(const { sh::<$p>() }, K::$k, $f::<$p, $strat>, s));
    )*} }
    macro_rules! pairwise { ($($p:ident)*) => {
        st!(strat_mul Mul PairwiseStrategy: $($p)*);
        st!(strat_sq Sq PairwiseStrategy: $($p)*);
        st!(strat_inv Inv PairwiseStrategy: $($p)*);
    } }
    packed_tower!(pairwise);
    packed_aes!(pairwise);
    packed_polyval!(pairwise);
    macro_rules! pw_alpha { ($($p:ident)*) => { st!(strat_alpha Alpha PairwiseStrategy: $($p)*); } }
    packed_tower!(pw_alpha);
    packed_aes!(pw_alpha);
    macro_rules! reuse { ($($p:ident)*) => { st!(strat_sq Sq ReuseMultiplyStrategy: $($p)*); } }
    packed_tower!(reuse);
    packed_aes!(reuse);
    macro_rules! rec { ($($p:ident)*) => {
        st!(strat_mul Mul PairwiseRecursiveStrategy: $($p)*);
        st!(strat_sq Sq PairwiseRecursiveStrategy: $($p)*);
        st!(strat_inv Inv PairwiseRecursiveStrategy: $($p)*);
        st!(strat_alpha Alpha PairwiseRecursiveStrategy: $($p)*);
    } }
    rec!(PackedBinaryField8x2b PackedBinaryField4x4b PackedBinaryField4x8b PackedBinaryField4x16b PackedBinaryField2x32b PackedBinaryField1x64b PackedBinaryField8x16b PackedBinaryField4x32b PackedBinaryField2x64b PackedBinaryField1x128b PackedBinaryField2x128b PackedBinaryField4x128b
         PackedAESBinaryField4x16b PackedAESBinaryField2x32b PackedAESBinaryField8x16b PackedAESBinaryField4x32b PackedAESBinaryField2x64b PackedAESBinaryField1x128b);
    macro_rules! hyb { ($($p:ident)*) => {
        st!(strat_mul Mul HybridRecursiveStrategy: $($p)*);
        st!(strat_sq Sq HybridRecursiveStrategy: $($p)*);
        st!(strat_alpha Alpha HybridRecursiveStrategy: $($p)*);
    } }
    macro_rules! pst { ($($p:ident)*) => {
        st!(strat_mul Mul PackedStrategy: $($p)*);
        st!(strat_sq Sq PackedStrategy: $($p)*);
        st!(strat_inv Inv PackedStrategy: $($p)*);
        st!(strat_alpha Alpha PackedStrategy: $($p)*);
    } }
    hyb!(PackedBinaryField8x8b PackedBinaryField4x16b PackedBinaryField2x32b PackedBinaryField1x64b PackedBinaryField2x8b PackedBinaryField1x16b PackedBinaryField4x4b PackedBinaryField16x8b PackedBinaryField8x16b PackedBinaryField4x32b PackedBinaryField2x64b PackedBinaryField1x128b PackedAESBinaryField4x16b PackedAESBinaryField2x32b PackedAESBinaryField1x64b PackedAESBinaryField8x16b);
    pst!(PackedBinaryField32x2b PackedBinaryField16x4b PackedBinaryField8x8b PackedBinaryField4x16b PackedBinaryField2x32b PackedBinaryField1x64b PackedBinaryField8x2b PackedBinaryField4x4b PackedBinaryField2x8b PackedBinaryField16x2b PackedBinaryField8x4b PackedBinaryField4x8b PackedBinaryField64x2b PackedBinaryField32x4b PackedBinaryField16x8b PackedBinaryField8x16b PackedBinaryField4x32b PackedBinaryField2x64b PackedBinaryField1x128b);
    st!(strat_mul Mul PairwiseTableStrategy: PackedBinaryField32x2b PackedBinaryField16x4b PackedBinaryField8x8b PackedBinaryField16x8b PackedBinaryField4x8b PackedAESBinaryField8x8b PackedAESBinaryField16x8b PackedBinaryField1x2b PackedBinaryField2x2b PackedBinaryField4x2b PackedBinaryField1x4b PackedBinaryField2x4b);

    macro_rules! sub { ($($p:ident: $($g:ident)*;)*) => {$($(
        r.sampled(concat!("subfield/", stringify!($p), "/", stringify!($g)), concat!("mul_by_subfield_scalar, ext_base_mul(_par) for ", stringify!($p), " over ", stringify!($g)), 40, |s| subfield_ops::<$p, $g>(s));
    )*)*} }
    sub! {
        PackedBinaryField4x8b: BinaryField1b BinaryField2b BinaryField4b BinaryField8b;
        PackedBinaryField8x8b: BinaryField1b BinaryField4b BinaryField8b;
        PackedBinaryField4x16b: BinaryField1b BinaryField8b BinaryField16b;
        PackedBinaryField2x32b: BinaryField1b BinaryField2b BinaryField8b BinaryField16b BinaryField32b;
        PackedBinaryField16x4b: BinaryField1b BinaryField2b;
        PackedBinaryField16x8b: BinaryField1b BinaryField2b BinaryField4b BinaryField8b;
        PackedBinaryField8x16b: BinaryField1b BinaryField8b BinaryField16b;
        PackedBinaryField4x32b: BinaryField1b BinaryField8b BinaryField16b BinaryField32b;
        PackedBinaryField2x64b: BinaryField1b BinaryField8b BinaryField16b BinaryField32b;
        PackedBinaryField1x128b: BinaryField1b BinaryField2b BinaryField4b BinaryField8b BinaryField16b BinaryField32b BinaryField64b BinaryField128b;
        PackedBinaryField2x128b: BinaryField1b BinaryField8b BinaryField16b BinaryField32b BinaryField64b BinaryField128b;
        PackedBinaryField8x32b: BinaryField1b BinaryField8b BinaryField16b BinaryField32b;
        PackedBinaryField16x16b: BinaryField1b BinaryField8b;
        PackedBinaryField32x8b: BinaryField1b BinaryField4b;
        PackedBinaryField4x128b: BinaryField1b BinaryField8b BinaryField16b BinaryField32b BinaryField64b BinaryField128b;
        PackedBinaryField16x32b: BinaryField8b BinaryField16b;
        PackedAESBinaryField16x8b: AESTowerField8b;
        PackedAESBinaryField8x16b: AESTowerField8b AESTowerField16b;
        PackedAESBinaryField4x32b: AESTowerField8b AESTowerField16b;
        PackedAESBinaryField1x128b: AESTowerField8b AESTowerField16b AESTowerField32b AESTowerField64b;
        PackedAESBinaryField2x128b: AESTowerField8b AESTowerField32b AESTowerField64b;
        PackedAESBinaryField4x128b: AESTowerField8b AESTowerField16b;
    }
    obligations(r);
}

// ---------------------------------------------------------------------------------------------
// Kani obligations: lane independence of packed operations over every operand.

obligations! {
    mul_1x8b, thorough, 10, "complete", "Mul for PackedBinaryField1x8b", |s| kmul::<PackedBinaryField1x8b>(s);
    mul_2x8b, thorough, 10, "complete", "Mul for PackedBinaryField2x8b", |s| kmul::<PackedBinaryField2x8b>(s);
    mul_aes_2x8b, thorough, 10, "complete", "Mul for PackedAESBinaryField2x8b", |s| kmul::<PackedAESBinaryField2x8b>(s);
    inv_8x1b, quick, 10, "complete", "invert_or_zero for PackedBinaryField8x1b", |s| kinv::<PackedBinaryField8x1b>(s);
    inv_8x2b, quick, 10, "complete", "invert_or_zero for PackedBinaryField8x2b", |s| kinv::<PackedBinaryField8x2b>(s);
    inv_4x4b, quick, 10, "complete", "invert_or_zero for PackedBinaryField4x4b", |s| kinv::<PackedBinaryField4x4b>(s);
    inv_2x8b, quick, 10, "complete", "invert_or_zero for PackedBinaryField2x8b", |s| kinv::<PackedBinaryField2x8b>(s);
    inv_aes_2x8b, quick, 10, "complete", "invert_or_zero for PackedAESBinaryField2x8b", |s| kinv::<PackedAESBinaryField2x8b>(s);
    inv_1x16b, thorough, 10, "complete", "invert_or_zero for PackedBinaryField1x16b", |s| kinv::<PackedBinaryField1x16b>(s);
    mul_8x1b, quick, 10, "complete", "Mul for PackedBinaryField8x1b", |s| kmul::<PackedBinaryField8x1b>(s);
    lin_8x1b, quick, 10, "complete", "add, sub, square (vs scalar square), mul_alpha, broadcast for PackedBinaryField8x1b", |s| klin::<PackedBinaryField8x1b>(s);
    mul_4x2b, quick, 10, "complete", "Mul for PackedBinaryField4x2b", |s| kmul::<PackedBinaryField4x2b>(s);
    lin_4x2b, quick, 10, "complete", "add, sub, square (vs scalar square), mul_alpha, broadcast for PackedBinaryField4x2b", |s| klin::<PackedBinaryField4x2b>(s);
    mul_2x4b, quick, 10, "complete", "Mul for PackedBinaryField2x4b", |s| kmul::<PackedBinaryField2x4b>(s);
    lin_2x4b, quick, 10, "complete", "add, sub, square (vs scalar square), mul_alpha, broadcast for PackedBinaryField2x4b", |s| klin::<PackedBinaryField2x4b>(s);
    lin_1x8b, quick, 10, "complete", "add, sub, square (vs scalar square), mul_alpha, broadcast for PackedBinaryField1x8b", |s| klin::<PackedBinaryField1x8b>(s);
    mul_16x1b, quick, 18, "complete", "Mul for PackedBinaryField16x1b", |s| kmul::<PackedBinaryField16x1b>(s);
    lin_16x1b, quick, 18, "complete", "add, sub, square (vs scalar square), mul_alpha, broadcast for PackedBinaryField16x1b", |s| klin::<PackedBinaryField16x1b>(s);
    mul_8x2b, quick, 10, "complete", "Mul for PackedBinaryField8x2b", |s| kmul::<PackedBinaryField8x2b>(s);
    lin_8x2b, quick, 10, "complete", "add, sub, square (vs scalar square), mul_alpha, broadcast for PackedBinaryField8x2b", |s| klin::<PackedBinaryField8x2b>(s);
    mul_4x4b, quick, 10, "complete", "Mul for PackedBinaryField4x4b", |s| kmul::<PackedBinaryField4x4b>(s);
    lin_4x4b, thorough, 10, "complete", "add, sub, square (vs scalar square), mul_alpha, broadcast for PackedBinaryField4x4b", |s| klin::<PackedBinaryField4x4b>(s);
    lin_2x8b, quick, 10, "complete", "add, sub, square (vs scalar square), mul_alpha, broadcast for PackedBinaryField2x8b", |s| klin::<PackedBinaryField2x8b>(s);
    lin_1x16b, thorough, 10, "complete", "add, sub, square (vs scalar square), mul_alpha, broadcast for PackedBinaryField1x16b", |s| klin::<PackedBinaryField1x16b>(s);
    mul_32x1b, quick, 34, "complete", "Mul for PackedBinaryField32x1b", |s| kmul::<PackedBinaryField32x1b>(s);
    lin_32x1b, thorough, 34, "complete", "add, sub, square (vs scalar square), mul_alpha, broadcast for PackedBinaryField32x1b", |s| klin::<PackedBinaryField32x1b>(s);
    mul_16x2b, quick, 18, "complete", "Mul for PackedBinaryField16x2b", |s| kmul::<PackedBinaryField16x2b>(s);
    lin_16x2b, thorough, 18, "complete", "add, sub, square (vs scalar square), mul_alpha, broadcast for PackedBinaryField16x2b", |s| klin::<PackedBinaryField16x2b>(s);
    mul_8x4b, quick, 10, "complete", "Mul for PackedBinaryField8x4b", |s| kmul::<PackedBinaryField8x4b>(s);
    lin_8x4b, thorough, 10, "complete", "add, sub, square (vs scalar square), mul_alpha, broadcast for PackedBinaryField8x4b", |s| klin::<PackedBinaryField8x4b>(s);
    lin_4x8b, quick, 10, "complete", "add, sub, square (vs scalar square), mul_alpha, broadcast for PackedBinaryField4x8b", |s| klin::<PackedBinaryField4x8b>(s);
    lin_2x16b, thorough, 10, "complete", "add, sub, square (vs scalar square), mul_alpha, broadcast for PackedBinaryField2x16b", |s| klin::<PackedBinaryField2x16b>(s);
    lin_1x32b, thorough, 10, "complete", "add, sub, square (vs scalar square), mul_alpha, broadcast for PackedBinaryField1x32b", |s| klin::<PackedBinaryField1x32b>(s);
    mul_64x1b, quick, 66, "complete", "Mul for PackedBinaryField64x1b", |s| kmul::<PackedBinaryField64x1b>(s);
    lin_64x1b, thorough, 66, "complete", "add, sub, square (vs scalar square), mul_alpha, broadcast for PackedBinaryField64x1b", |s| klin::<PackedBinaryField64x1b>(s);
    mul_32x2b, quick, 34, "complete", "Mul for PackedBinaryField32x2b", |s| kmul::<PackedBinaryField32x2b>(s);
    lin_32x2b, thorough, 34, "complete", "add, sub, square (vs scalar square), mul_alpha, broadcast for PackedBinaryField32x2b", |s| klin::<PackedBinaryField32x2b>(s);
    mul_16x4b, quick, 18, "complete", "Mul for PackedBinaryField16x4b", |s| kmul::<PackedBinaryField16x4b>(s);
    lin_16x4b, thorough, 18, "complete", "add, sub, square (vs scalar square), mul_alpha, broadcast for PackedBinaryField16x4b", |s| klin::<PackedBinaryField16x4b>(s);
    lin_8x8b, quick, 10, "complete", "add, sub, square (vs scalar square), mul_alpha, broadcast for PackedBinaryField8x8b", |s| klin::<PackedBinaryField8x8b>(s);
    lin_4x16b, thorough, 10, "complete", "add, sub, square (vs scalar square), mul_alpha, broadcast for PackedBinaryField4x16b", |s| klin::<PackedBinaryField4x16b>(s);
    lin_2x32b, thorough, 10, "complete", "add, sub, square (vs scalar square), mul_alpha, broadcast for PackedBinaryField2x32b", |s| klin::<PackedBinaryField2x32b>(s);
    lin_1x64b, thorough, 10, "complete", "add, sub, square (vs scalar square), mul_alpha, broadcast for PackedBinaryField1x64b", |s| klin::<PackedBinaryField1x64b>(s);
    lin_128x1b, thorough, 130, "complete", "add, sub, square (vs scalar square), mul_alpha, broadcast for PackedBinaryField128x1b", |s| klin::<PackedBinaryField128x1b>(s);
    lin_64x2b, thorough, 66, "complete", "add, sub, square (vs scalar square), mul_alpha, broadcast for PackedBinaryField64x2b", |s| klin::<PackedBinaryField64x2b>(s);
    lin_32x4b, thorough, 34, "complete", "add, sub, square (vs scalar square), mul_alpha, broadcast for PackedBinaryField32x4b", |s| klin::<PackedBinaryField32x4b>(s);
    lin_16x8b, thorough, 18, "complete", "add, sub, square (vs scalar square), mul_alpha, broadcast for PackedBinaryField16x8b", |s| klin::<PackedBinaryField16x8b>(s);
    lin_8x16b, thorough, 10, "complete", "add, sub, square (vs scalar square), mul_alpha, broadcast for PackedBinaryField8x16b", |s| klin::<PackedBinaryField8x16b>(s);
    lin_4x32b, thorough, 10, "complete", "add, sub, square (vs scalar square), mul_alpha, broadcast for PackedBinaryField4x32b", |s| klin::<PackedBinaryField4x32b>(s);
    lin_2x64b, thorough, 10, "complete", "add, sub, square (vs scalar square), mul_alpha, broadcast for PackedBinaryField2x64b", |s| klin::<PackedBinaryField2x64b>(s);
    lin_1x128b, thorough, 10, "complete", "add, sub, square (vs scalar square), mul_alpha, broadcast for PackedBinaryField1x128b", |s| klin::<PackedBinaryField1x128b>(s);
    lin_aes_1x8b, quick, 10, "complete", "add, sub, square, mul_alpha, broadcast for PackedAESBinaryField1x8b", |s| klin::<PackedAESBinaryField1x8b>(s);
    lin_aes_2x8b, quick, 10, "complete", "add, sub, square, mul_alpha, broadcast for PackedAESBinaryField2x8b", |s| klin::<PackedAESBinaryField2x8b>(s);
    lin_aes_1x16b, thorough, 10, "complete", "add, sub, square, mul_alpha, broadcast for PackedAESBinaryField1x16b", |s| klin::<PackedAESBinaryField1x16b>(s);
    lin_aes_4x8b, quick, 10, "complete", "add, sub, square, mul_alpha, broadcast for PackedAESBinaryField4x8b", |s| klin::<PackedAESBinaryField4x8b>(s);
    lin_aes_2x16b, thorough, 10, "complete", "add, sub, square, mul_alpha, broadcast for PackedAESBinaryField2x16b", |s| klin::<PackedAESBinaryField2x16b>(s);
    lin_aes_1x32b, thorough, 10, "complete", "add, sub, square, mul_alpha, broadcast for PackedAESBinaryField1x32b", |s| klin::<PackedAESBinaryField1x32b>(s);
    lin_aes_8x8b, thorough, 10, "complete", "add, sub, square, mul_alpha, broadcast for PackedAESBinaryField8x8b", |s| klin::<PackedAESBinaryField8x8b>(s);
    lin_aes_4x16b, thorough, 10, "complete", "add, sub, square, mul_alpha, broadcast for PackedAESBinaryField4x16b", |s| klin::<PackedAESBinaryField4x16b>(s);
    lin_aes_2x32b, thorough, 10, "complete", "add, sub, square, mul_alpha, broadcast for PackedAESBinaryField2x32b", |s| klin::<PackedAESBinaryField2x32b>(s);
    lin_aes_1x64b, thorough, 10, "complete", "add, sub, square, mul_alpha, broadcast for PackedAESBinaryField1x64b", |s| klin::<PackedAESBinaryField1x64b>(s);
}
/// A packed value with every lane symbolic, and one symbolic lane.
fn kx<P: PackedField<Scalar: Fx>>(s: &mut impl Src) -> P {
    P::from_fn(|_| el(s))
}
fn kmul<P: PackedField<Scalar: Fx>>(s: &mut impl Src) -> R {
    let (x, y): (P, P) = (kx(s), kx(s));
    let i = s.below(P::WIDTH);
    let z = x * y;
    ensures!(z.get(i) == x.get(i) * y.get(i), "packed mul lane = scalar product");
    Ok(())
}
fn klin<P: PackedField<Scalar: Fx + MulAlpha> + MulAlpha>(s: &mut impl Src) -> R {
    let (x, y): (P, P) = (kx(s), kx(s));
    let i = s.below(P::WIDTH);
    ensures!((x + y).get(i) == x.get(i) + y.get(i), "packed add lane = scalar sum");
    ensures!((x - y).get(i) == x.get(i) + y.get(i), "packed sub lane = scalar difference");
    ensures!(PackedField::square(x).get(i) == Square::square(x.get(i)), "packed square lane = scalar square");
    ensures!(MulAlpha::mul_alpha(x).get(i) == MulAlpha::mul_alpha(x.get(i)), "packed mul_alpha lane = scalar mul_alpha");
    ensures!(P::broadcast(y.get(0)).get(i) == y.get(0), "broadcast lane = scalar");
    Ok(())
}
fn kinv<P: PackedField<Scalar: Fx>>(s: &mut impl Src) -> R {
    let x: P = kx(s);
    let i = s.below(P::WIDTH);
    ensures!(PackedField::invert_or_zero(x).get(i) == InvertOrZero::invert_or_zero(x.get(i)), "packed invert_or_zero lane = scalar inverse");
    Ok(())
}
