//! C04: isomorphisms, bases, linear transformations.
use crate::rt::*;
use crate::spec::*;
use binius_field::linear_transformation::*;
use binius_field::underlier::*;
use binius_field::*;

fn m(nb: u32) -> u128 {
    if nb >= 128 { !0 } else { (1u128 << nb) - 1 }
}
fn part(x: u128, nb: u32, i: usize) -> u128 {
    (x >> (i as u32 * nb)) & m(nb)
}
/// matrix . vector over GF(2): sum of the columns selected by the bits of x
fn lin(cols: &[u128], x: u128) -> u128 {
    let mut r = 0;
    let mut i = 0;
    while i < cols.len() {
        if (x >> i) & 1 == 1 {
            r ^= cols[i];
        }
        i += 1;
    }
    r
}

#[cfg(not(kani))]
pub use nat::*;
#[cfg(not(kani))]
mod nat {
    use super::*;
    use binius_field::packed::*;
    use binius_field::util::*;

    pub struct Iso {
        pub a: (Fam, u32),
        pub b: (Fam, u32),
        pub f: fn(u128) -> u128,
        pub g: fn(u128) -> u128,
    }
    pub fn iso_of<A: Fx + From<B>, B: Fx + From<A>>() -> Iso {
        Iso { a: (A::FAM, A::LEVEL), b: (B::FAM, B::LEVEL), f: |x| B::from(A::of(x)).raw(), g: |x| A::from(B::of(x)).raw() }
    }
    pub fn iso_pair(i: &Iso, x: u128, y: u128) -> R {
        let (fx, fy) = ((i.f)(x), (i.f)(y));
        ensures!((i.f)(x ^ y) == fx ^ fy, "conversion preserves sums", "{x:x} {y:x}");
        let p = mul(i.a.0, i.a.1, x, y);
        ensures!((i.f)(p) == mul(i.b.0, i.b.1, fx, fy), "conversion preserves products", "{x:x} {y:x}");
        ensures!((i.g)(fx) == x, "the opposite conversion undoes it", "{x:x} -> {fx:x}");
        ensures!((i.f)((i.g)(x)) == x, "conversion after the opposite one is the identity", "{x:x}");
        let (gx, gy) = ((i.g)(x), (i.g)(y));
        ensures!((i.g)(mul(i.b.0, i.b.1, x, y)) == mul(i.a.0, i.a.1, gx, gy), "opposite conversion preserves products", "{x:x} {y:x}");
        Ok(())
    }

    pub struct Ext {
        lists: [Vec<u128>; 3],
        basis: Vec<u128>,
        oob: bool,
        whole: Option<u128>,
        short: Option<u128>,
        long_err: bool,
        sparse: Option<u128>,
        combo: u128,
        try_: Option<u128>,
        try_emb: Option<u128>,
        emb: u128,
        arith: Vec<u128>,
    }
    pub fn ext_ops<E: Fx + ExtensionField<F>, F: Fx>(x: u128, c: &[u128], n: usize, ls: usize, y: u128) -> Ext {
        let e = E::of(x);
        let d = <E as ExtensionField<F>>::DEGREE;
        let fs: Vec<F> = c.iter().map(|v| F::of(*v)).collect();
        let fy = F::of(y);
        let mut long = fs.clone();
        long.push(F::ONE);
        let (mut aa, mut ss, mut mm) = (e, e, e);
        aa += fy;
        ss -= fy;
        mm *= fy;
        Ext {
            lists: [
                e.iter_bases().map(|v| v.raw()).collect(),
                e.into_iter_bases().map(|v| v.raw()).collect(),
                (0..d).map(|i| ExtensionField::<F>::get_base(&e, i).raw()).collect(),
            ],
            basis: (0..d).map(|i| <E as ExtensionField<F>>::basis(i).raw()).collect(),
            oob: <E as ExtensionField<F>>::basis_checked(d).is_err() && <E as ExtensionField<F>>::basis_checked(d + 5).is_err(),
            whole: E::from_bases(fs.clone()).ok().map(|v| v.raw()),
            short: E::from_bases(fs[..n].to_vec()).ok().map(|v| v.raw()),
            long_err: E::from_bases(long).is_err(),
            sparse: E::from_bases_sparse(fs[..d >> ls].to_vec(), ls).ok().map(|v| v.raw()),
            combo: e.iter_bases().enumerate().map(|(i, v)| <E as ExtensionField<F>>::basis(i) * v).sum::<E>().raw(),
            try_: TryInto::<F>::try_into(e).ok().map(|v: F| v.raw()),
            try_emb: TryInto::<F>::try_into(E::from(fy)).ok().map(|v: F| v.raw()),
            emb: E::from(fy).raw(),
            arith: vec![(e + fy).raw(), (e - fy).raw(), (e * fy).raw(), aa.raw(), ss.raw(), mm.raw()],
        }
    }
    pub fn ext(fam: Fam, el_: u32, fl: u32, f: fn(u128, &[u128], usize, usize, u128) -> Ext, s: &mut NSrc) -> R {
        let (nb, fb) = (1u32 << el_, 1u32 << fl);
        let d = (nb / fb) as usize;
        let x = s.word(nb);
        let c: Vec<u128> = (0..d).map(|_| s.word(fb)).collect();
        let n = s.range(0, d);
        let ls = s.range(0, (el_ - fl) as usize);
        let y = s.word(fb);
        let o = f(x, &c, n, ls, y);
        let want: Vec<u128> = (0..d).map(|i| part(x, fb, i)).collect();
        ensures!(o.lists[0] == want, "iter_bases", "{x:x}: {:x?}", o.lists[0]);
        ensures!(o.lists[1] == want, "into_iter_bases", "{x:x}: {:x?}", o.lists[1]);
        ensures!(o.lists[2] == want, "get_base", "{x:x}: {:x?}", o.lists[2]);
        if fam == Fam::Polyval {
            // known finding: the basis is 1, X, X^2, ..., while coefficients are the bits of the
            // representation, so the two do not belong together
            ensures!(o.basis[0] == PONE && (1..d).all(|i| o.basis[i] == mul(fam, el_, o.basis[i - 1], o.basis[1])) && o.basis[1] != 0 && o.basis[1] != PONE, "basis(i) is the i-th power of X", "{:x?}", o.basis);
        } else {
            ensures!(o.basis.iter().enumerate().all(|(i, b)| *b == 1u128 << (i as u32 * fb)), "basis(i) has coefficient vector e_i", "{:x?}", o.basis);
        }
        ensures!(o.oob, "basis_checked out of range is an error");
        let cat = |v: &[u128], step: u32| v.iter().enumerate().fold(0u128, |r, (i, e)| r | e << (i as u32 * step).min(127));
        ensures!(o.whole == Some(cat(&c, fb)), "from_bases recombines coefficients", "{c:x?}: {:x?}", o.whole);
        ensures!(o.short == Some(cat(&c[..n], fb)), "from_bases of a short list", "{n} of {c:x?}: {:x?}", o.short);
        if d > 1 {
            ensures!(o.long_err, "from_bases of too many coefficients is an error");
        }
        ensures!(o.sparse == Some(cat(&c[..d >> ls], fb << ls)), "from_bases_sparse places every 2^stride-th coefficient", "stride {ls} {c:x?}: {:x?}", o.sparse);
        ensures!(o.combo == x || fam == Fam::Polyval, "sum of basis(i) * coefficient(i) is the element", "{x:x} got {:x}", o.combo);
        let pol = fam == Fam::Polyval;
        let emb = |v: u128| if pol { if v == 1 { PONE } else { 0 } } else { v };
        ensures!(o.emb == emb(y), "embedding of a subfield element", "{y:x}: {:x}", o.emb);
        ensures!(o.try_emb == Some(y), "projection undoes the embedding", "{y:x}: {:x?}", o.try_emb);
        let wt = if pol { if x == 0 { Some(0) } else if x == PONE { Some(1) } else { None } } else if x >> (fb % 128) == 0 || fb == nb { Some(x) } else { None };
        ensures!(o.try_ == wt, "projection exists exactly for subfield elements", "{x:x}: {:x?}", o.try_);
        let e = emb(y);
        let w = vec![x ^ e, x ^ e, mul(fam, el_, x, e), x ^ e, x ^ e, mul(fam, el_, x, e)];
        ensures!(o.arith == w, "mixed arithmetic is arithmetic with the embedding", "{x:x} {y:x}: {:x?}", o.arith);
        Ok(())
    }

    pub fn lin_ops<I: BinaryField + Fx, O: BinaryField + Fx>(b: &[u128], x: u128) -> u128 {
        let t = FieldLinearTransformation::<O, _>::new(b.iter().map(|v| O::of(*v)).collect::<Vec<O>>());
        Transformation::<I, O>::transform(&t, &I::of(x)).raw()
    }
    pub fn linear(nb: u32, f: fn(&[u128], u128) -> u128, s: &mut NSrc) -> R {
        let b: Vec<u128> = (0..nb).map(|_| s.word(nb)).collect();
        let x = s.word(nb);
        let got = f(&b, x);
        ensures!(got == lin(&b, x), "transform(x) is the sum of the columns selected by x", "{x:x}: {got:x}");
        Ok(())
    }
    pub fn plin_ops<I, O>(b: &[u128], a: &[u128]) -> Vec<u128>
    where
        I: PackedTransformationFactory<O> + PackedField<Scalar: Fx>,
        O: PackedField<Scalar: Fx + BinaryField> + binius_field::packed::PackedBinaryField,
    {
        let bases: Vec<O::Scalar> = b.iter().map(|v| O::Scalar::of(*v)).collect();
        let t = I::make_packed_transformation(FieldLinearTransformation::new(bases));
        upk(&t.transform(&pk::<I>(a)))
    }
    pub fn plinear(w: usize, nb: u32, draw: fn(&mut NSrc, usize) -> Vec<u128>, f: fn(&[u128], &[u128]) -> Vec<u128>, s: &mut NSrc) -> R {
        let b: Vec<u128> = (0..nb).map(|_| s.word(nb)).collect();
        let a = draw(s, w);
        let o = f(&b, &a);
        for i in 0..w {
            let want = lin(&b, a[i]);
            ensures!(o[i] == want, "packed transformation acts on each lane", "lane {i} of {w}: {:x} -> {:x}, expected {want:x}", a[i], o[i]);
        }
        Ok(())
    }
    pub fn a2b<A, B>(a: &[u128]) -> Vec<u128>
    where
        A: PackedExtension<AESTowerField8b> + PackedField<Scalar: Fx>,
        B: PackedExtension<BinaryField8b> + PackedField<Scalar: Fx>,
        A::PackedSubfield: PackedTransformationFactory<B::PackedSubfield>,
    {
        upk::<B>(&make_aes_to_binary_packed_transformer::<A, B>().transform(&pk::<A>(a)))
    }
    pub fn b2a<B, A>(a: &[u128]) -> Vec<u128>
    where
        A: PackedExtension<AESTowerField8b> + PackedField<Scalar: Fx>,
        B: PackedExtension<BinaryField8b> + PackedField<Scalar: Fx>,
        B::PackedSubfield: PackedTransformationFactory<A::PackedSubfield>,
    {
        upk::<A>(&make_binary_to_aes_packed_transformer::<B, A>().transform(&pk::<B>(a)))
    }
    pub fn piso(w: usize, draw: fn(&mut NSrc, usize) -> Vec<u128>, i: &Iso, f: fn(&[u128]) -> Vec<u128>, g: fn(&[u128]) -> Vec<u128>, s: &mut NSrc) -> R {
        let a = draw(s, w);
        let (x, y) = (f(&a), g(&a));
        for k in 0..w {
            ensures!(x[k] == (i.f)(a[k]), "packed AES to binary conversion is the scalar one per lane", "lane {k}: {:x} -> {:x}", a[k], x[k]);
            ensures!(y[k] == (i.g)(a[k]), "packed binary to AES conversion is the scalar one per lane", "lane {k}: {:x} -> {:x}", a[k], y[k]);
        }
        Ok(())
    }
    pub fn ext_mul<PE, F>(s: &mut NSrc) -> R
    where
        F: Fx,
        PE: PackedExtension<F> + PackedField<Scalar: Fx + ExtensionField<F>>,
    {
        let n = s.range(0, 2);
        let d = <PE::Scalar as ExtensionField<F>>::DEGREE;
        let rw = <PE::PackedSubfield as PackedField>::WIDTH;
        let b = lanes::<F>(s, n * rw);
        let a = lanes::<PE::Scalar>(s, n * d * PE::WIDTH);
        let rhs: Vec<PE::PackedSubfield> = b.chunks(rw).map(pk).collect();
        let lhs: Vec<PE> = a.chunks(PE::WIDTH).map(pk).collect();
        let (mut l1, mut l2) = (lhs.clone(), lhs.clone());
        ensures!(ext_base_mul(&mut l1, &rhs).is_ok() && ext_base_mul_par(&mut l2, &rhs).is_ok(), "ext_base_mul accepts matching lengths");
        ensures!(l1 == l2, "ext_base_mul_par = ext_base_mul");
        for (i, x) in PE::iter_slice(&l1).enumerate() {
            let w = mul(PE::Scalar::FAM, PE::Scalar::LEVEL, a[i], b[i]);
            ensures!(x.raw() == w, "ext_base_mul multiplies scalar i by subfield scalar i", "scalar {i}: {:x} * {:x} = {:x}", a[i], b[i], x.raw());
        }
        let mut bad = lhs.clone();
        bad.push(PE::zero());
        ensures!(ext_base_mul(&mut bad, &rhs).is_err() == (d != 1 || true) && ext_base_mul_par(&mut bad, &rhs).is_err(), "ext_base_mul rejects mismatched lengths");
        let mut l3 = lhs.clone();
        ext_base_op(&mut l3, &rhs, |i, l, r| if i == 0 { PE::cast_ext(l.cast_base() + r) } else { l }).unwrap();
        ensures!(l3.iter().zip(&lhs).skip(1).all(|(a, b)| a == b), "ext_base_op passes the element index");
        Ok(())
    }
    pub fn inner<PX, PY>(s: &mut NSrc) -> R
    where
        PY: PackedField<Scalar: Fx>,
        PX: PackedField<Scalar: Fx + ExtensionField<PY::Scalar>>,
    {
        let big = s.below(40) == 3;
        let ny = if big { s.range(1024, 1100) } else { s.range(0, 5) };
        let tot = ny * PY::WIDTH;
        let nx = tot / PX::WIDTH;
        let y = lanes::<PY::Scalar>(s, tot);
        let x = lanes::<PX::Scalar>(s, nx * PX::WIDTH);
        let py: Vec<PY> = y.chunks(PY::WIDTH).map(pk).collect();
        let px: Vec<PX> = x.chunks(PX::WIDTH).map(pk).collect();
        let want = x.iter().zip(&y).fold(0, |r, (a, b)| r ^ mul(PX::Scalar::FAM, PX::Scalar::LEVEL, *a, *b));
        let got = inner_product_par::<PX::Scalar, PX, PY>(&px, &py).raw();
        ensures!(got == want, "inner_product_par is the sum of products", "{nx} x {ny}: {got:x} expected {want:x}");
        let got = inner_product_unchecked::<PY::Scalar, PX::Scalar>(PX::iter_slice(&px), PY::iter_slice(&py)).raw();
        ensures!(got == want, "inner_product_unchecked is the sum of products", "{nx} x {ny}");
        Ok(())
    }
    pub fn utils(s: &mut NSrc) -> R {
        let (x, y): (BinaryField32b, BinaryField32b) = (el(s), el(s));
        ensures!(eq(x, y) == x * y + (x + BinaryField32b::ONE) * (y + BinaryField32b::ONE) , "eq(x, y) = xy + (1-x)(1-y)", "{x:?} {y:?}");
        let mut p = BinaryField32b::ONE;
        for v in powers(x).take(9) {
            ensures!(v == p, "powers enumerates 1, x, x^2, ...", "{x:?}");
            p *= x;
        }
        Ok(())
    }
    pub fn compose(s: &mut NSrc) -> R {
        let x: BinaryField128b = el(s);
        let p = BinaryField128bPolyval::from(x);
        ensures!(BinaryField128bPolyval::from(AESTowerField128b::from(x)) == p, "binary -> AES -> POLYVAL = binary -> POLYVAL", "{x:?}");
        ensures!(AESTowerField128b::from(p) == AESTowerField128b::from(x), "binary -> POLYVAL -> AES = binary -> AES", "{x:?}");
        let y: BinaryField8b = el(s);
        ensures!(AESTowerField128b::from(BinaryField128b::from(y)) == AESTowerField128b::from(AESTowerField8b::from(y)), "conversion commutes with embedding", "{y:?}");
        let y: BinaryField64b = el(s);
        ensures!(AESTowerField128b::from(BinaryField128b::from(y)) == AESTowerField128b::from(AESTowerField64b::from(y)), "conversion commutes with embedding", "{y:?}");
        Ok(())
    }
    pub fn towers(_: &mut NSrc) -> R {
        macro_rules! t { ($($f:ident $c:literal $a:literal $p:literal;)*) => {$(
            ensures!(is_canonical_tower::<$f>() == $c, "is_canonical_tower", "{}", stringify!($f));
            ensures!(is_aes_tower::<$f>() == $a, "is_aes_tower", "{}", stringify!($f));
            ensures!(is_polyval_tower::<$f>() == $p, "is_polyval_tower", "{}", stringify!($f));
        )*} }
        t! {
            BinaryField2b true false false; BinaryField4b true false false; BinaryField8b true false false; BinaryField16b true false false; BinaryField32b true false false; BinaryField64b true false false; BinaryField128b true false false;
            AESTowerField8b false true false; AESTowerField16b false true false; AESTowerField32b false true false; AESTowerField64b false true false; AESTowerField128b false true false;
            BinaryField128bPolyval false false true;
        }
        Ok(())
    }

    pub fn register(r: &mut Runner) {
        macro_rules! isos { ($($a:ident $b:ident;)*) => {$(
            r.sampled(concat!("iso/", stringify!($a), "/", stringify!($b)), concat!("From<", stringify!($a), "> for ", stringify!($b), " and back"), 2000, |s| { let i = iso_of::<$a, $b>(); let (x, y) = (s.word(<$a>::NB), s.word(<$a>::NB)); iso_pair(&i, x, y) });
        )*} }
        isos! { AESTowerField8b BinaryField8b; AESTowerField16b BinaryField16b; AESTowerField32b BinaryField32b; AESTowerField64b BinaryField64b; AESTowerField128b BinaryField128b; BinaryField128bPolyval BinaryField128b; AESTowerField128b BinaryField128bPolyval; }
        r.exhaustive("iso8/all pairs", "From<AESTowerField8b> for BinaryField8b and back", "all 65536 pairs of 8-bit values", 65536, |s| { let i = s.index(); iso_pair(&iso_of::<AESTowerField8b, BinaryField8b>(), (i & 255) as u128, (i >> 8) as u128) });
        r.exhaustive("iso128/unit vectors", "POLYVAL/binary/AES conversions on every pair of unit vectors (a linear map with these products is multiplicative)", "all 16384 pairs of unit vectors, three conversions", 16384 * 3, |s| {
            let i = s.index();
            let (k, i) = (i / 16384, i % 16384);
            let iso = match k { 0 => iso_of::<BinaryField128bPolyval, BinaryField128b>(), 1 => iso_of::<AESTowerField128b, BinaryField128bPolyval>(), _ => iso_of::<AESTowerField128b, BinaryField128b>() };
            iso_pair(&iso, 1u128 << (i & 127), 1u128 << (i >> 7))
        });
        r.sampled("iso/compose", "conversions compose and commute with embeddings", 500, compose);
        r.exhaustive("tower predicates", "is_canonical_tower, is_aes_tower, is_polyval_tower", "every tower field type", 1, towers);
        macro_rules! exts { ($($e:ident: $($f:ident)*;)*) => {$($(
            r.sampled(concat!("ext/", stringify!($e), "/", stringify!($f)), concat!("ExtensionField<", stringify!($f), "> for ", stringify!($e)), 300, |s| ext(<$e>::FAM, <$e>::LEVEL, <$f>::LEVEL, ext_ops::<$e, $f>, s));
        )*)*} }
        exts! {
            BinaryField1b: BinaryField1b;
            BinaryField2b: BinaryField1b BinaryField2b;
            BinaryField4b: BinaryField1b BinaryField2b;
            BinaryField8b: BinaryField1b BinaryField2b BinaryField4b;
            BinaryField16b: BinaryField1b BinaryField2b BinaryField4b BinaryField8b;
            BinaryField32b: BinaryField1b BinaryField2b BinaryField4b BinaryField8b BinaryField16b;
            BinaryField64b: BinaryField1b BinaryField2b BinaryField4b BinaryField8b BinaryField16b BinaryField32b;
            BinaryField128b: BinaryField1b BinaryField2b BinaryField4b BinaryField8b BinaryField16b BinaryField32b BinaryField64b;
            AESTowerField8b: BinaryField1b;
            AESTowerField16b: BinaryField1b AESTowerField8b;
            AESTowerField32b: BinaryField1b AESTowerField8b AESTowerField16b;
            AESTowerField64b: BinaryField1b AESTowerField8b AESTowerField16b AESTowerField32b;
            AESTowerField128b: BinaryField1b AESTowerField8b AESTowerField16b AESTowerField32b AESTowerField64b;
            BinaryField128bPolyval: BinaryField1b;
        }
        macro_rules! lins { ($($i:ident $o:ident;)*) => {$(
            r.sampled(concat!("linear/", stringify!($i), "/", stringify!($o)), concat!("FieldLinearTransformation from ", stringify!($i), " to ", stringify!($o)), 200, |s| linear(<$i>::NB, lin_ops::<$i, $o>, s));
        )*} }
        lins! { BinaryField2b BinaryField2b; BinaryField4b BinaryField4b; BinaryField8b BinaryField8b; AESTowerField8b BinaryField8b; BinaryField8b AESTowerField8b; BinaryField16b BinaryField16b; BinaryField32b AESTowerField32b; BinaryField64b BinaryField64b; BinaryField128b BinaryField128b; BinaryField128b BinaryField128bPolyval; BinaryField128bPolyval AESTowerField128b; }
        macro_rules! plins { ($($i:ident $o:ident;)*) => {$(
            r.sampled(concat!("packed_linear/", stringify!($i), "/", stringify!($o)), concat!("packed linear transformation from ", stringify!($i), " to ", stringify!($o)), 24, |s| plinear($i::WIDTH, <<$i as PackedField>::Scalar as Fx>::NB, lanes::<<$i as PackedField>::Scalar>, plin_ops::<$i, $o>, s));
        )*} }
        macro_rules! self_plins { ($($i:ident)*) => { plins! { $($i $i;)* } } }
        packed_tower!(self_plins);
        packed_aes!(self_plins);
        packed_polyval!(self_plins);
        self_plins!(ByteSlicedAES16x128b ByteSlicedAES2x16x64b ByteSlicedAES4x32x32b ByteSlicedAES8x16x16b ByteSlicedAES16x8b ByteSlicedAES16x32x8b ByteSlicedAES64x16b ByteSlicedAES64x128b ByteSliced4x128x1b);
        plins! {
            PackedAESBinaryField16x8b PackedBinaryField16x8b; PackedBinaryField16x8b PackedAESBinaryField16x8b; PackedAESBinaryField32x8b PackedBinaryField32x8b; PackedBinaryField64x8b PackedAESBinaryField64x8b;
            PackedAESBinaryField4x32b PackedBinaryField4x32b; PackedBinaryField2x64b PackedAESBinaryField2x64b; PackedAESBinaryField1x128b PackedBinaryField1x128b;
            PackedBinaryField1x128b PackedBinaryPolyval1x128b; PackedBinaryPolyval1x128b PackedBinaryField1x128b; PackedBinaryField2x128b PackedBinaryPolyval2x128b; PackedAESBinaryField2x128b PackedBinaryPolyval2x128b; PackedBinaryPolyval4x128b PackedBinaryField4x128b; PackedAESBinaryField8x8b PackedBinaryField8x8b;
        }
        macro_rules! pisos { ($($a:ident $b:ident;)*) => {$(
            r.sampled(concat!("packed_iso/", stringify!($a)), concat!("make_aes_to_binary_packed_transformer / make_binary_to_aes_packed_transformer: ", stringify!($a), " and ", stringify!($b)), 60, |s| piso($a::WIDTH, lanes::<<$a as PackedField>::Scalar>, &iso_of::<<$a as PackedField>::Scalar, <$b as PackedField>::Scalar>(), a2b::<$a, $b>, b2a::<$b, $a>, s));
        )*} }
        pisos! {
            PackedAESBinaryField16x8b PackedBinaryField16x8b; PackedAESBinaryField8x16b PackedBinaryField8x16b; PackedAESBinaryField4x32b PackedBinaryField4x32b; PackedAESBinaryField2x64b PackedBinaryField2x64b; PackedAESBinaryField1x128b PackedBinaryField1x128b;
            PackedAESBinaryField32x8b PackedBinaryField32x8b; PackedAESBinaryField8x32b PackedBinaryField8x32b; PackedAESBinaryField2x128b PackedBinaryField2x128b;
            PackedAESBinaryField64x8b PackedBinaryField64x8b; PackedAESBinaryField8x64b PackedBinaryField8x64b; PackedAESBinaryField4x128b PackedBinaryField4x128b; PackedAESBinaryField8x8b PackedBinaryField8x8b; PackedAESBinaryField2x16b PackedBinaryField2x16b; PackedAESBinaryField1x64b PackedBinaryField1x64b;
        }
        macro_rules! em { ($($p:ident $f:ident;)*) => {$(
            r.sampled(concat!("ext_base_mul/", stringify!($p), "/", stringify!($f)), concat!("ext_base_mul(_par), ext_base_op of ", stringify!($p), " by ", stringify!($f)), 40, |s| ext_mul::<$p, $f>(s));
        )*} }
        em! { PackedBinaryField4x32b BinaryField8b; PackedBinaryField4x32b BinaryField16b; PackedBinaryField2x128b BinaryField8b; PackedBinaryField1x128b BinaryField1b; PackedBinaryField1x128b BinaryField64b; PackedBinaryField4x128b BinaryField16b; PackedBinaryField8x16b BinaryField4b; PackedAESBinaryField2x64b AESTowerField16b; PackedAESBinaryField8x32b AESTowerField8b; BinaryField128b BinaryField8b; PackedBinaryField16x8b BinaryField8b; }
        macro_rules! ip { ($($p:ident $f:ident;)*) => {$(
            r.sampled(concat!("inner_product/", stringify!($p), "/", stringify!($f)), concat!("inner_product_par, inner_product_unchecked of ", stringify!($p), " and ", stringify!($f)), 30, |s| inner::<$p, $f>(s));
        )*} }
        ip! { PackedBinaryField4x32b PackedBinaryField4x32b; PackedBinaryField1x128b PackedBinaryField128x1b; PackedBinaryField1x128b PackedBinaryField16x8b; PackedBinaryField2x64b PackedBinaryField8x16b; PackedAESBinaryField2x128b PackedAESBinaryField32x8b; PackedBinaryField4x32b PackedBinaryField2x32b; BinaryField128b BinaryField8b; PackedBinaryField8x8b PackedBinaryField1x8b; }
        r.sampled("util/eq and powers", "eq, powers", 200, utils);
        super::obligations(r);
    }
}

fn k_iso8(s: &mut impl Src) -> R {
    let (x, y): (BinaryField8b, BinaryField8b) = (el(s), el(s));
    let (a, b) = (AESTowerField8b::from(x), AESTowerField8b::from(y));
    ensures!(AESTowerField8b::from(x + y) == a + b, "conversion preserves sums");
    ensures!(BinaryField8b::from(a) == x, "opposite conversion undoes it");
    ensures!(AESTowerField8b::from(BinaryField8b::from(AESTowerField8b::of(s.word(8)))).raw() < 256, "total");
    Ok(())
}
fn k_iso8_mul(s: &mut impl Src) -> R {
    let (x, y) = (s.word(8), s.word(8));
    let f = |v: u128| AESTowerField8b::from(BinaryField8b::of(v)).raw();
    ensures!(f(tmul_def(3, x, y)) == aes_mul8(f(x) as u8, f(y) as u8) as u128, "conversion preserves products");
    let g = |v: u128| BinaryField8b::from(AESTowerField8b::of(v)).raw();
    ensures!(g(aes_mul8(x as u8, y as u8) as u128) == tmul_def(3, g(x), g(y)), "opposite conversion preserves products");
    Ok(())
}
fn k_round<A: Fx + From<B>, B: Fx + From<A>>(s: &mut impl Src) -> R {
    let x: A = el(s);
    ensures!(A::from(B::from(x)) == x, "opposite conversion undoes it");
    let y: B = el(s);
    ensures!(B::from(A::from(y)) == y, "conversion undoes the opposite one");
    Ok(())
}
fn k_add<A: Fx, B: Fx + From<A>>(s: &mut impl Src) -> R {
    let (x, y): (A, A) = (el(s), el(s));
    ensures!(B::from(x + y) == B::from(x) + B::from(y), "conversion preserves sums");
    Ok(())
}
fn k_ext<E: Fx + ExtensionField<F>, F: Fx>(s: &mut impl Src) -> R {
    let x = s.word(E::NB);
    let y = s.word(F::NB);
    let e = E::of(x);
    let d = <E as ExtensionField<F>>::DEGREE;
    let i = s.below(d);
    ensures!(ExtensionField::<F>::get_base(&e, i).raw() == part(x, F::NB, i), "get_base");
    ensures!(<E as ExtensionField<F>>::basis(i).raw() == 1u128 << (i as u32 * F::NB), "basis(i) has coefficient vector e_i");
    let o = s.u64() as usize;
    ensures!(<E as ExtensionField<F>>::basis_checked(o).is_ok() == (o < d), "basis_checked bound");
    let f = F::of(y);
    ensures!(E::from(f).raw() == y, "embedding");
    let t: Result<F, _> = e.try_into();
    match t {
        Ok(v) => ensures!(v.raw() == x, "projection of a subfield element"),
        Err(_) => ensures!(F::NB < E::NB && x >> F::NB != 0, "projection fails exactly outside the subfield"),
    }
    ensures!((e + f).raw() == x ^ y && (e - f).raw() == x ^ y, "mixed sums");
    Ok(())
}
fn k_bases<E: Fx + ExtensionField<F>, F: Fx, const D: usize>(s: &mut impl Src) -> R {
    let c: [F; D] = std::array::from_fn(|_| el(s));
    let n = s.range(0, D);
    let e = E::from_bases(c.iter().take(n).copied());
    ensures!(e.is_ok(), "from_bases accepts up to DEGREE coefficients");
    let e = e.unwrap();
    let mut i = 0;
    for b in e.iter_bases() {
        ensures!(b.raw() == if i < n { c[i].raw() } else { 0 }, "iter_bases recovers the coefficients given to from_bases");
        i += 1;
    }
    ensures!(i == D, "DEGREE coefficients");
    ensures!(E::from_bases(c.iter().copied().chain([F::ONE])).is_err(), "too many coefficients are an error");
    Ok(())
}
fn k_lin8(s: &mut impl Src) -> R {
    let b: [u128; 8] = std::array::from_fn(|_| s.word(8));
    let x = s.word(8);
    let t = FieldLinearTransformation::<BinaryField8b, _>::new(b.map(|v| BinaryField8b::of(v)));
    let y: BinaryField8b = Transformation::<AESTowerField8b, BinaryField8b>::transform(&t, &AESTowerField8b::of(x));
    ensures!(y.raw() == lin(&b, x), "transform(x) is the sum of the columns selected by x");
    Ok(())
}
fn k_plin(s: &mut impl Src) -> R {
    let b: [u128; 8] = std::array::from_fn(|_| s.word(8));
    let u = s.u32();
    let x = PackedAESBinaryField4x8b::from_underlier(u);
    let t = <PackedAESBinaryField4x8b as PackedTransformationFactory<PackedBinaryField4x8b>>::make_packed_transformation(FieldLinearTransformation::<BinaryField8b, _>::new(b.map(|v| BinaryField8b::of(v))));
    let y: PackedBinaryField4x8b = t.transform(&x);
    let i = s.below(4);
    ensures!(y.get(i).raw() == lin(&b, (u as u128 >> (8 * i)) & 255), "packed transformation acts on each lane");
    Ok(())
}
obligations! {
    iso8, quick, 10, "complete", "From conversions between AESTowerField8b and BinaryField8b", |s| k_iso8(s);
    iso8_mul, quick, 18, "complete", "From conversions between AESTowerField8b and BinaryField8b preserve products", |s| k_iso8_mul(s);
    iso16, quick, 10, "complete", "From conversions between AESTowerField16b and BinaryField16b are inverse", |s| k_round::<AESTowerField16b, BinaryField16b>(s);
    iso32, quick, 10, "complete", "From conversions between AESTowerField32b and BinaryField32b are inverse", |s| k_round::<AESTowerField32b, BinaryField32b>(s);
    iso64, thorough, 10, "complete", "From conversions between AESTowerField64b and BinaryField64b are inverse", |s| k_round::<AESTowerField64b, BinaryField64b>(s);
    iso32_add, quick, 10, "complete", "From<BinaryField32b> for AESTowerField32b preserves sums", |s| k_add::<BinaryField32b, AESTowerField32b>(s);
    poly_add, thorough, 130, "complete", "From<BinaryField128b> for BinaryField128bPolyval preserves sums", |s| k_add::<BinaryField128b, BinaryField128bPolyval>(s);
    poly_round, thorough, 130, "complete", "POLYVAL conversions are inverse", |s| k_round::<BinaryField128b, BinaryField128bPolyval>(s);
    ext_2_1, quick, 10, "complete", "ExtensionField<BinaryField1b> for BinaryField2b", |s| k_ext::<BinaryField2b, BinaryField1b>(s);
    ext_4_2, quick, 10, "complete", "ExtensionField<BinaryField2b> for BinaryField4b", |s| k_ext::<BinaryField4b, BinaryField2b>(s);
    ext_8_1, quick, 10, "complete", "ExtensionField<BinaryField1b> for BinaryField8b", |s| k_ext::<BinaryField8b, BinaryField1b>(s);
    ext_16_4, quick, 10, "complete", "ExtensionField<BinaryField4b> for BinaryField16b", |s| k_ext::<BinaryField16b, BinaryField4b>(s);
    ext_32_8, quick, 10, "complete", "ExtensionField<BinaryField8b> for BinaryField32b", |s| k_ext::<BinaryField32b, BinaryField8b>(s);
    ext_64_16, quick, 10, "complete", "ExtensionField<BinaryField16b> for BinaryField64b", |s| k_ext::<BinaryField64b, BinaryField16b>(s);
    ext_128_1, quick, 10, "complete", "ExtensionField<BinaryField1b> for BinaryField128b", |s| k_ext::<BinaryField128b, BinaryField1b>(s);
    ext_128_8, quick, 10, "complete", "ExtensionField<BinaryField8b> for BinaryField128b", |s| k_ext::<BinaryField128b, BinaryField8b>(s);
    ext_128_64, quick, 10, "complete", "ExtensionField<BinaryField64b> for BinaryField128b", |s| k_ext::<BinaryField128b, BinaryField64b>(s);
    ext_a128_a32, quick, 10, "complete", "ExtensionField<AESTowerField32b> for AESTowerField128b", |s| k_ext::<AESTowerField128b, AESTowerField32b>(s);
    bases_8_1, quick, 12, "complete", "from_bases/iter_bases of BinaryField8b over BinaryField1b", |s| k_bases::<BinaryField8b, BinaryField1b, 8>(s);
    bases_8_2, quick, 12, "complete", "from_bases/iter_bases of BinaryField8b over BinaryField2b", |s| k_bases::<BinaryField8b, BinaryField2b, 4>(s);
    bases_32_8, quick, 12, "complete", "from_bases/iter_bases of BinaryField32b over BinaryField8b", |s| k_bases::<BinaryField32b, BinaryField8b, 4>(s);
    bases_128_16, quick, 12, "complete", "from_bases/iter_bases of BinaryField128b over BinaryField16b", |s| k_bases::<BinaryField128b, BinaryField16b, 8>(s);
    bases_a64_a32, quick, 12, "complete", "from_bases/iter_bases of AESTowerField64b over AESTowerField32b", |s| k_bases::<AESTowerField64b, AESTowerField32b, 2>(s);
    lin8, quick, 10, "complete", "FieldLinearTransformation on 8-bit fields", |s| k_lin8(s);
    plin_4x8b, quick, 12, "complete", "packed linear transformation of PackedAESBinaryField4x8b to PackedBinaryField4x8b", |s| k_plin(s);
}
