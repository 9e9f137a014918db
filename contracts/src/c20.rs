//! C20: compute backends, device memory views and allocators.
use crate::rt::*;
use crate::spec::*;
use crate::{ensures, obligations, requires};
use binius_compute::alloc::{BumpAllocator, ComputeAllocator};
use binius_compute::cpu::CpuMemory;
use binius_compute::memory::{ComputeMemory, SizedSlice};
use binius_fast_compute::memory::{PackedMemory, PackedMemorySlice, PackedMemorySliceMut};
use binius_field::*;

fn any_pk<P: PackedField<Scalar: Fx>>(s: &mut impl Src) -> P {
    P::from_fn(|_| el(s))
}
pub fn scalars<P: PackedField>(v: &PackedMemorySlice<'_, P>) -> Vec<P::Scalar> {
    let n = v.len();
    PackedField::iter_slice(v.as_slice()).take(n).collect()
}
/// A view split in half any number of times names exactly its elements, and what is written
/// through the parts is what the whole holds afterwards.
fn halves<P: PackedField<Scalar: Fx>, const D: usize>(s: &mut impl Src) -> R {
    let init: P = any_pk(s);
    let new: P::Scalar = el(s);
    let pos = s.below(P::WIDTH >> D) as usize;
    let path: [bool; D] = std::array::from_fn(|_| s.bool());
    let reborrow = s.bool();
    let mut mem = [init];
    let (mut at, mut len) = (0, P::WIDTH);
    {
        let mut v = PackedMemorySliceMut::new_slice(&mut mem);
        for &right in &path {
            let (a, b) = PackedMemory::<P>::split_half_mut(v);
            len /= 2;
            if right {
                at += len;
                v = b;
            } else {
                v = a;
            }
        }
        ensures!(v.len() == len, "half of a view has half its length");
        for k in 0..len {
            ensures!(v.as_slice()[0].get(k) == init.get(at + k), "a half of a view names its elements");
        }
        // known finding: writes through a reborrowed part that does not start its packed element
        requires!(!(reborrow && at != 0));
        if reborrow {
            let mut w = PackedMemory::<P>::to_owned_mut(&mut v);
            w.as_slice_mut()[0].set(pos, new);
        } else {
            v.as_slice_mut()[0].set(pos, new);
        }
    }
    for k in 0..P::WIDTH {
        let e = if k == at + pos { new } else { init.get(k) };
        ensures!(mem[0].get(k) == e, "a write through a part of a view changes that element only");
    }
    Ok(())
}
fn halves_const<P: PackedField<Scalar: Fx>, const D: usize>(s: &mut impl Src) -> R {
    let mem: [P; 1] = [any_pk(s)];
    let path: [bool; D] = std::array::from_fn(|_| s.bool());
    let (mut at, mut len) = (0, P::WIDTH);
    let mut v = PackedMemorySlice::new_slice(&mem);
    for &right in &path {
        let (a, b) = PackedMemory::<P>::split_half(v);
        len /= 2;
        if right {
            at += len;
            v = b;
        } else {
            v = a;
        }
    }
    ensures!(v.len() == len, "half of a view has half its length");
    for k in 0..len {
        ensures!(v.as_slice()[0].get(k) == mem[0].get(at + k), "a half of a view names its elements");
    }
    Ok(())
}
fn ranges<P: PackedField<Scalar: Fx>, const N: usize>(s: &mut impl Src) -> R {
    let mem: [P; N] = std::array::from_fn(|_| any_pk(s));
    let (a, b) = (s.below(N + 1) as usize, s.below(N + 1) as usize);
    requires!(a <= b);
    let v = PackedMemorySlice::new_slice(&mem);
    let r = PackedMemory::<P>::slice(v, a * P::WIDTH..b * P::WIDTH);
    ensures!(r.len() == (b - a) * P::WIDTH && r.as_slice() == &mem[a..b], "a range of a view names its elements");
    let (x, y) = PackedMemory::<P>::split_at(v, a * P::WIDTH);
    ensures!(x.as_slice() == &mem[..a] && y.as_slice() == &mem[a..], "a view split at a position");
    Ok(())
}
/// Allocated regions are disjoint parts of the buffer, in order.
fn bump_cpu<const N: usize>(s: &mut impl Src) -> R {
    let mut mem = [0u8; N];
    let base = mem.as_ptr() as usize;
    let alloc = BumpAllocator::<u8, CpuMemory>::new(&mut mem);
    let mut used = 0usize;
    for _ in 0..3 {
        let n = s.below(N + 2) as usize;
        requires!(n > 0);
        ensures!(ComputeAllocator::<u8, CpuMemory>::capacity(&alloc) == N - used, "the capacity is what has not been handed out");
        match alloc.alloc(n) {
            Ok(x) => {
                ensures!(n <= N - used && x.len() == n && x.as_ptr() as usize == base + used, "an allocated region is the next part of the buffer");
                used += n;
            }
            Err(_) => ensures!(n > N - used, "an allocation fails only without room"),
        }
    }
    Ok(())
}
obligations! {
    halves_4x32_1, quick, 6, "writing through a half of a 4-lane element", "split_half_mut, to_owned_mut, Drop", halves::<PackedBinaryField4x32b, 1>;
    halves_4x32_2, quick, 6, "writing through a quarter of a 4-lane element", "split_half_mut, to_owned_mut, Drop", halves::<PackedBinaryField4x32b, 2>;
    halves_const_4x32_2, quick, 6, "quarters of a 4-lane element", "split_half", halves_const::<PackedBinaryField4x32b, 2>;
    ranges_4x32, quick, 6, "ranges of three packed elements", "slice, split_at, to_packed_range", ranges::<PackedBinaryField4x32b, 3>;
    bump_cpu_4, quick, 6, "three allocations of any sizes from a buffer of 4", "BumpAllocator::alloc, capacity", bump_cpu::<4>;
}

#[cfg(not(kani))]
pub use native::register;
#[cfg(not(kani))]
mod native {
    use super::*;
    use binius_compute::cpu::layer::{CpuLayer, CpuLayerHolder};
    use binius_compute::layer::*;
    use binius_compute::memory::{SlicesBatch, SubfieldSlice};
    use binius_compute::ops::eq_ind_partial_eval;
    use binius_fast_compute::layer::{FastCpuLayer, FastCpuLayerHolder};
    use binius_field::tower::{AESTowerFamily, CanonicalTowerFamily};
    use binius_math::{ArithCircuit, ArithExpr};
    use binius_ntt::{AdditiveNTT, NTTShape, SingleThreadedNTT};

    type CpuB = CpuLayerHolder<BinaryField128b>;
    type FastB<P> = FastCpuLayerHolder<CanonicalTowerFamily, P>;
    type FastA<P> = FastCpuLayerHolder<AESTowerFamily, P>;

    fn vec_of<F: Field>(s: &mut NSrc, n: usize) -> Vec<F> {
        let mut rng = rng_of(s);
        let kind = s.below(6);
        (0..n)
            .map(|i| match kind {
                0 => F::ZERO,
                1 => F::ONE,
                2 if i % 3 == 0 => F::ZERO,
                _ => F::random(&mut rng),
            })
            .collect()
    }
    /// Reads a device slice.
    fn down<F: Field, H: ComputeLayer<F>>(hal: &H, v: FSlice<'_, F, H>) -> Vec<F> {
        let mut out = vec![F::ZERO; v.len()];
        hal.copy_d2h(v, &mut out).unwrap();
        out
    }
    macro_rules! up {
        ($hal:expr, $al:expr, $v:expr) => {{
            let v = $v;
            let mut d = $al.alloc(v.len()).unwrap();
            $hal.copy_h2d(&v[..], &mut d).unwrap();
            d
        }};
    }
    const M: usize = 1 << 15;
    pub trait Holder<F: Field>: ComputeHolder<F, Self::H> {
        type H: ComputeLayer<F> + 'static;
        fn mk(n: usize) -> Self;
    }
    impl Holder<BinaryField128b> for CpuB {
        type H = CpuLayer<BinaryField128b>;
        fn mk(n: usize) -> Self {
            CpuLayerHolder::new(n, n)
        }
    }
    impl<T: tower::TowerFamily, P: tower::PackedTop<T>> Holder<T::B128> for FastCpuLayerHolder<T, P> {
        type H = FastCpuLayer<T, P>;
        fn mk(n: usize) -> Self {
            FastCpuLayerHolder::new(n, n)
        }
    }
    type Dev<F, C> = <<C as Holder<F>>::H as ComputeLayer<F>>::DevMem;

    fn copies<F: TowerField, C: Holder<F>>(s: &mut NSrc) -> R {
        let mut h = C::mk(M);
        let ComputeData { hal, dev_alloc, .. } = &mut h.to_data();
        let n = 1usize << s.range(0, 7);
        let (a, b, v) = (vec_of::<F>(s, n), vec_of::<F>(s, n), vec_of::<F>(s, 1)[0]);
        let g0 = up!(hal, dev_alloc, &b);
        let mut x = up!(hal, dev_alloc, &a);
        let mut y = up!(hal, dev_alloc, &b);
        let g1 = up!(hal, dev_alloc, &b);
        let x2 = Dev::<F, C>::as_const(&x);
        ensures!(x2.len() == n && down::<F, C::H>(hal, x2) == a, "copies to and from the device", "{n}");
        hal.copy_d2d(Dev::<F, C>::as_const(&x), &mut y).unwrap();
        ensures!(down::<F, C::H>(hal, Dev::<F, C>::as_const(&y)) == a, "copies on the device", "{n}");
        hal.fill(&mut x, v).unwrap();
        ensures!(down::<F, C::H>(hal, Dev::<F, C>::as_const(&x)) == vec![v; n], "filling a device slice", "{n}");
        for g in [&g0, &g1] {
            ensures!(down::<F, C::H>(hal, Dev::<F, C>::as_const(g)) == b, "copies write only their destination", "{n}");
        }
        ensures!(down::<F, C::H>(hal, Dev::<F, C>::as_const(&y)) == a, "filling writes only its slice", "{n}");
        let c = vec_of::<F>(s, 2 * n);
        ensures!(catches(|| hal.copy_h2d(&c, &mut y).is_ok()) != Some(true), "copies of different lengths are refused");
        ensures!(catches(|| hal.copy_d2h(Dev::<F, C>::as_const(&x), &mut vec![F::ZERO; 2 * n]).is_ok()) != Some(true), "copies of different lengths are refused");
        Ok(())
    }
    fn tensor<F: TowerField, C: Holder<F>>(s: &mut NSrc) -> R {
        let mut h = C::mk(M);
        let ComputeData { hal, dev_alloc, .. } = &mut h.to_data();
        let (ln, k) = (s.range(0, 5) as usize, s.range(0, 5) as usize);
        let (v, r) = (vec_of::<F>(s, 1 << ln), vec_of::<F>(s, k));
        let mut init = v.clone();
        // what the rest of the buffer held does not matter
        init.extend(vec_of::<F>(s, (1 << (ln + k)) - (1 << ln)));
        let g0 = up!(hal, dev_alloc, &v);
        let mut d = up!(hal, dev_alloc, &init);
        let g1 = up!(hal, dev_alloc, &v);
        hal.execute(|e| {
            e.tensor_expand(ln, &r, &mut d)?;
            Ok(vec![])
        })
        .unwrap();
        let o = down::<F, C::H>(hal, Dev::<F, C>::as_const(&d));
        for i in 0..1 << (ln + k) {
            let mut e = v[i & ((1 << ln) - 1)];
            for (j, &r) in r.iter().enumerate() {
                e *= if i >> (ln + j) & 1 == 1 { r } else { F::ONE - r };
            }
            ensures!(o[i] == e, "tensor expansion by its definition", "{ln} {k} {i}");
        }
        for g in [&g0, &g1] {
            ensures!(down::<F, C::H>(hal, Dev::<F, C>::as_const(g)) == v, "tensor expansion writes only its buffer", "{ln} {k}");
        }
        let q = catches(|| {
            hal.execute(|e| {
                e.tensor_expand(ln + 1, &r, &mut d)?;
                Ok(vec![])
            })
            .is_ok()
        });
        // views shorter than one packed element carry their length only up to the element's width
        if 1 << (ln + k) >= Dev::<F, C>::ALIGNMENT {
            ensures!(q == Some(false), "a tensor expansion of the wrong size is an error", "{ln} {k}");
        }
        let e = eq_ind_partial_eval::<F, C::H, _>(hal, dev_alloc, &r).unwrap();
        let o = down::<F, C::H>(hal, Dev::<F, C>::as_const(&e));
        for i in 0..1 << k {
            let mut e = F::ONE;
            for (j, &r) in r.iter().enumerate() {
                e *= if i >> j & 1 == 1 { r } else { F::ONE - r };
            }
            ensures!(o[i] == e, "equality indicator by its definition", "{k} {i}");
        }
        Ok(())
    }
    /// The elements of a level-`l` subfield that a vector of field elements holds.
    fn parts<F: TowerField>(v: &[F], l: usize) -> Vec<F> {
        let n = 1usize << (F::TOWER_LEVEL - l);
        let mut out = vec![];
        for &x in v {
            for i in 0..n {
                // coordinate i over the level-l subfield, embedded in F
                out.push(coord(x, l, i));
            }
        }
        out
    }
    fn coord<F: TowerField>(x: F, l: usize, i: usize) -> F {
        if l == 0 {
            // over GF(2): the bits of the representation of the field itself
            let any: &dyn std::any::Any = &x;
            let bits = match any.downcast_ref::<AESTowerField128b>() {
                Some(a) => a.raw(),
                None => to_canonical(x).raw(),
            };
            return if bits >> i & 1 == 1 { F::ONE } else { F::ZERO };
        }
        macro_rules! c {
            ($($k:literal => $t:ty),*) => {
                match l { $($k => {
                    let b: Vec<$t> = <BinaryField128b as ExtensionField<$t>>::iter_bases(&<BinaryField128b>::from(to_canonical(x))).collect();
                    from_canonical::<F>(BinaryField128b::from(b[i]))
                })*, _ => unreachable!() }
            };
        }
        c!(0 => BinaryField1b, 3 => BinaryField8b, 4 => BinaryField16b, 5 => BinaryField32b, 6 => BinaryField64b, 7 => BinaryField128b)
    }
    fn to_canonical<F: 'static + Copy>(x: F) -> BinaryField128b {
        let a: &dyn std::any::Any = &x;
        if let Some(b) = a.downcast_ref::<BinaryField128b>() {
            *b
        } else {
            (*a.downcast_ref::<AESTowerField128b>().unwrap()).into()
        }
    }
    fn from_canonical<F: 'static + Copy>(x: BinaryField128b) -> F {
        let y: AESTowerField128b = x.into();
        let a: &dyn std::any::Any = &x;
        let b: &dyn std::any::Any = &y;
        *a.downcast_ref::<F>().or_else(|| b.downcast_ref::<F>()).unwrap()
    }
    const LEVELS: [usize; 6] = [0, 3, 4, 5, 6, 7];
    fn inner<F: TowerField, C: Holder<F>>(s: &mut NSrc) -> R {
        let mut h = C::mk(M);
        let ComputeData { hal, dev_alloc, .. } = &mut h.to_data();
        let l = LEVELS[s.below(6) as usize];
        let ln = s.range(2, 4);
        let (a, b) = (vec_of::<F>(s, 1 << ln), vec_of::<F>(s, 1 << (ln as usize + 7 - l)));
        let (da, db) = (up!(hal, dev_alloc, &a), up!(hal, dev_alloc, &b));
        let e = parts(&a, l).iter().zip(&b).map(|(&x, &y)| x * y).sum::<F>();
        let got = |l: usize, a: &FSliceMut<'_, F, C::H>, b: &FSliceMut<'_, F, C::H>| {
            catches(|| hal.execute(|x| Ok(vec![x.inner_product(SubfieldSlice::new(Dev::<F, C>::as_const(a), l), Dev::<F, C>::as_const(b))?])).ok())
        };
        ensures!(got(l, &da, &db) == Some(Some(vec![e])), "inner product by its definition", "level {l}, {}", a.len());
        if l < 7 {
            ensures!(got(l, &db, &da) == Some(None), "an inner product of the wrong sizes is an error", "level {l}");
        }
        ensures!(got(8, &da, &db) == Some(None), "an inner product over a level above the field is an error");
        Ok(())
    }
    fn folds<F: TowerField, C: Holder<F>>(s: &mut NSrc) -> R {
        let mut h = C::mk(M);
        let ComputeData { hal, dev_alloc, .. } = &mut h.to_data();
        let l = LEVELS[s.below(6) as usize];
        let lm = s.range(2, 4) as usize;
        let a = vec_of::<F>(s, 1 << lm);
        let p = parts(&a, l);
        let total = lm + 7 - l;
        let lv = s.below(total + 1) as usize;
        let (nv, no) = (1usize << lv, 1usize << (total - lv));
        let v = vec_of::<F>(s, nv);
        let b = vec_of::<F>(s, no);
        let (da, dv) = (up!(hal, dev_alloc, &a), up!(hal, dev_alloc, &v));
        let mut o1 = up!(hal, dev_alloc, &b);
        let g = up!(hal, dev_alloc, &b);
        let mut o2 = up!(hal, dev_alloc, &b);
        let (ca, cv) = (Dev::<F, C>::as_const(&da), Dev::<F, C>::as_const(&dv));
        hal.execute(|x| {
            x.fold_left(SubfieldSlice::new(ca, l), cv, &mut o1)?;
            x.fold_right(SubfieldSlice::new(ca, l), cv, &mut o2)?;
            Ok(vec![])
        })
        .unwrap();
        let (o1v, o2v) = (down::<F, C::H>(hal, Dev::<F, C>::as_const(&o1)), down::<F, C::H>(hal, Dev::<F, C>::as_const(&o2)));
        for i in 0..no {
            // left: the vector runs over the high part of the index; right: over the low part
            let e1 = (0..nv).map(|j| p[j * no + i] * v[j]).sum::<F>();
            let e2 = (0..nv).map(|j| p[i * nv + j] * v[j]).sum::<F>();
            ensures!(o1v[i] == e1, "left fold is the matrix-vector product", "level {l}, {nv} {no} {i}");
            ensures!(o2v[i] == e2, "right fold is the matrix-vector product", "level {l}, {nv} {no} {i}");
        }
        ensures!(down::<F, C::H>(hal, Dev::<F, C>::as_const(&g)) == b && down::<F, C::H>(hal, ca) == a, "folds write only their output");
        // an output of the wrong length, a level above the field
        let mut bad = up!(hal, dev_alloc, &vec![F::ZERO; 8 * no]);
        for lvl in [l, 8] {
            for right in [false, true] {
                let q = catches(|| {
                    hal.execute(|x| {
                        let m = SubfieldSlice::new(ca, lvl);
                        if right { x.fold_right(m, cv, &mut bad)? } else { x.fold_left(m, cv, &mut bad)? }
                        Ok(vec![])
                    })
                    .is_ok()
                });
                ensures!(q == Some(false), "a fold of the wrong sizes is an error", "level {lvl}, {nv} {no} right {right}");
            }
        }
        Ok(())
    }
    fn fri<F: TowerField + PackedExtension<FS> + ExtensionField<FS>, FS: BinaryField + TowerField, C: Holder<F>>(s: &mut NSrc) -> R {
        let mut h = C::mk(M);
        let ComputeData { hal, dev_alloc, .. } = &mut h.to_data();
        let dom = 6usize;
        let ntt = SingleThreadedNTT::<FS>::new(dom).unwrap();
        let (ll, lb) = (s.range(0, dom) as usize, s.range(0, 3) as usize);
        let eta = s.below(ll + 1) as usize;
        requires!(ll + lb >= 2);
        let (a, c) = (vec_of::<F>(s, 1 << (ll + lb)), vec_of::<F>(s, lb + eta));
        // interleaved values folded with the first challenges
        let mut m: Vec<F> = (0..1 << ll)
            .map(|i| {
                (0..1 << lb)
                    .map(|j: usize| (0..lb).map(|t| if j >> t & 1 == 1 { c[t] } else { F::ONE - c[t] }).product::<F>() * a[i << lb | j])
                    .sum()
            })
            .collect();
        // coefficients of the polynomial with these values, folded, and evaluated on the smaller domain
        let sh = |n: usize| NTTShape { log_y: n, ..Default::default() };
        ntt.inverse_transform_ext(&mut m, sh(ll), 0, 0, 0).unwrap();
        for &c in &c[lb..] {
            m = (0..m.len() / 2).map(|i| m[2 * i] * (F::ONE - c) + m[2 * i + 1] * c).collect();
        }
        ntt.forward_transform_ext(&mut m, sh(ll - eta), 0, 0, 0).unwrap();
        let b = vec_of::<F>(s, m.len());
        let da = up!(hal, dev_alloc, &a);
        let mut o = up!(hal, dev_alloc, &b);
        let g = up!(hal, dev_alloc, &a);
        let ca = Dev::<F, C>::as_const(&da);
        let run = |ll: usize, lb: usize, c: &[F], o: &mut FSliceMut<'_, F, C::H>| {
            catches(|| {
                hal.execute(|x| {
                    x.fri_fold(&ntt, ll, lb, c, ca, o)?;
                    Ok(vec![])
                })
                .is_ok()
            })
        };
        ensures!(run(ll, lb, &c, &mut o) == Some(true), "a FRI fold of matching sizes succeeds", "{ll} {lb} {eta}");
        let bad = run(ll + 1, lb, &c, &mut o);
        ensures!(down::<F, C::H>(hal, Dev::<F, C>::as_const(&o)) == m, "a FRI fold folds the polynomial behind the codeword", "{ll} {lb} {eta}");
        ensures!(bad == Some(false), "a FRI fold of the wrong sizes is an error", "{ll} {lb} {eta}");
        if lb > 0 {
            ensures!(run(ll, lb, &c[..lb - 1], &mut o) == Some(false), "a FRI fold without the batching challenges is an error", "{ll} {lb} {eta}");
        }
        ensures!(down::<F, C::H>(hal, Dev::<F, C>::as_const(&g)) == a && down::<F, C::H>(hal, ca) == a, "a FRI fold writes only its output");
        Ok(())
    }
    fn lines<F: TowerField, C: Holder<F>>(s: &mut NSrc) -> R {
        let mut h = C::mk(M);
        let ComputeData { hal, dev_alloc, .. } = &mut h.to_data();
        let n = 1usize << s.range(0, 8);
        let (a, b, z) = (vec_of::<F>(s, n), vec_of::<F>(s, n), vec_of::<F>(s, 1)[0]);
        let g0 = up!(hal, dev_alloc, &b);
        let mut x = up!(hal, dev_alloc, &a);
        let y = up!(hal, dev_alloc, &b);
        let z2 = up!(hal, dev_alloc, &vec_of::<F>(s, 8 * n));
        hal.execute(|e| {
            e.extrapolate_line(&mut x, Dev::<F, C>::as_const(&y), z)?;
            Ok(vec![])
        })
        .unwrap();
        let o = down::<F, C::H>(hal, Dev::<F, C>::as_const(&x));
        for i in 0..n {
            ensures!(o[i] == a[i] + (b[i] - a[i]) * z, "extrapolated lines", "{n} {i}");
        }
        ensures!(down::<F, C::H>(hal, Dev::<F, C>::as_const(&g0)) == b && down::<F, C::H>(hal, Dev::<F, C>::as_const(&y)) == b, "extrapolation writes only its output");
        let q = catches(|| {
            hal.execute(|e| {
                e.extrapolate_line(&mut x, Dev::<F, C>::as_const(&z2), z)?;
                Ok(vec![])
            })
            .is_ok()
        });
        ensures!(q == Some(false), "extrapolation of different lengths is an error");
        Ok(())
    }
    fn expr<F: Field>(s: &mut NSrc, nv: usize, d: usize) -> ArithExpr<F> {
        match if d == 0 { s.below(2) } else { s.below(6) } {
            0 => ArithExpr::Var(s.below(nv) as usize),
            1 => ArithExpr::Const(vec_of::<F>(s, 1)[0]),
            2 | 3 => expr(s, nv, d - 1) + expr(s, nv, d - 1),
            4 => expr(s, nv, d - 1) * expr(s, nv, d - 1),
            _ => expr(s, nv, d - 1).pow(s.below(5) as u64),
        }
    }
    fn value<F: Field>(e: &ArithExpr<F>, x: &[F]) -> F {
        match e {
            ArithExpr::Var(i) => x[*i],
            ArithExpr::Const(c) => *c,
            ArithExpr::Add(a, b) => value(a, x) + value(b, x),
            ArithExpr::Mul(a, b) => value(a, x) * value(b, x),
            ArithExpr::Pow(a, n) => {
                let (b, mut r) = (value(a, x), F::ONE);
                for _ in 0..*n {
                    r *= b;
                }
                r
            }
        }
    }
    fn composite<F: TowerField, C: Holder<F>>(s: &mut NSrc) -> R {
        let mut h = C::mk(M);
        let ComputeData { hal, dev_alloc, .. } = &mut h.to_data();
        let nv = s.range(1, 4) as usize;
        let n = 1usize << s.range(0, 8);
        // the last variable always occurs
        let e = expr::<F>(s, nv, 3) + ArithExpr::Var(nv - 1) * ArithExpr::Const(vec_of::<F>(s, 1)[0]);
        let c = ArithCircuit::from(&e);
        let ev = hal.compile_expr(&c).unwrap();
        let rows: Vec<Vec<F>> = (0..nv).map(|_| vec_of::<F>(s, n)).collect();
        let dev: Vec<_> = rows.iter().map(|r| up!(hal, dev_alloc, r)).collect();
        let g0 = up!(hal, dev_alloc, &rows[0]);
        let mut o = up!(hal, dev_alloc, &vec_of::<F>(s, n));
        let g1 = up!(hal, dev_alloc, &rows[0]);
        let batch = SlicesBatch::new(dev.iter().map(|d| Dev::<F, C>::as_const(d)).collect::<Vec<_>>(), n);
        let r = catches(|| {
            hal.execute(|x| {
                x.compute_composite(&batch, &mut o, &ev)?;
                Ok(vec![])
            })
            .is_ok()
        });
        ensures!(r == Some(true), "a composite over matching rows is computed", "{n} rows of {nv}: {e:?}");
        let got = down::<F, C::H>(hal, Dev::<F, C>::as_const(&o));
        for i in 0..n {
            let x: Vec<F> = rows.iter().map(|r| r[i]).collect();
            ensures!(got[i] == value(&e, &x), "a composite by its expression on every row", "{n} {i} {e:?}");
        }
        for g in [&g0, &g1, &dev[0]] {
            ensures!(down::<F, C::H>(hal, Dev::<F, C>::as_const(g)) == rows[0], "a composite writes only its output");
        }
        let mut bad = up!(hal, dev_alloc, &vec_of::<F>(s, 8 * n));
        let r = catches(|| {
            hal.execute(|x| {
                x.compute_composite(&batch, &mut bad, &ev)?;
                Ok(vec![])
            })
            .is_ok()
        });
        ensures!(r == Some(false), "a composite of the wrong length is an error");
        Ok(())
    }
    fn products<F: TowerField, C: Holder<F>>(s: &mut NSrc) -> R {
        let mut h = C::mk(M);
        let ComputeData { hal, dev_alloc, .. } = &mut h.to_data();
        let k = s.range(0, 7) as usize;
        let a = vec_of::<F>(s, 1 << k);
        let mut e = vec![];
        let mut cur = a.clone();
        for _ in 0..k {
            cur = (0..cur.len() / 2).map(|i| cur[2 * i] * cur[2 * i + 1]).collect();
            e.push(cur.clone());
        }
        let da = up!(hal, dev_alloc, &a);
        let mut outs: Vec<_> = (0..k).map(|i| up!(hal, dev_alloc, &vec_of::<F>(s, 1 << (k - 1 - i)))).collect();
        let mut bad: Vec<_> = (0..k + 1).map(|i| up!(hal, dev_alloc, &vec_of::<F>(s, 1 << (k - i)))).collect();
        let ca = Dev::<F, C>::as_const(&da);
        let run = |o: &mut [FSliceMut<'_, F, C::H>]| {
            catches(|| {
                hal.execute(|x| {
                    x.pairwise_product_reduce(ca, o)?;
                    Ok(vec![])
                })
                .is_ok()
            })
        };
        ensures!(run(&mut bad) == Some(false), "a product reduction of the wrong sizes is an error", "{k}");
        ensures!(run(&mut bad[..k]) == Some(false), "a product reduction of the wrong sizes is an error", "{k}");
        let r = run(&mut outs);
        if k == 0 {
            ensures!(r == Some(false), "a product reduction of one element is an error");
            return Ok(());
        }
        ensures!(r == Some(true), "a product reduction of matching sizes succeeds", "{k}");
        for i in 0..k {
            ensures!(down::<F, C::H>(hal, Dev::<F, C>::as_const(&outs[i])) == e[i], "pairwise products of every round", "{k} round {i}");
        }
        ensures!(down::<F, C::H>(hal, ca) == a, "a product reduction writes only its outputs");
        Ok(())
    }
    fn kernels<F: TowerField, C: Holder<F>>(s: &mut NSrc) -> R {
        let mut h = C::mk(M);
        let ComputeData { hal, dev_alloc, .. } = &mut h.to_data();
        let k = s.range(2, 8) as usize;
        let n = 1usize << k;
        let (min, loc) = (s.below(4) as usize, s.bool());
        let (a, b, init) = (vec_of::<F>(s, n), vec_of::<F>(s, n), vec_of::<F>(s, n));
        let (coeff, start) = (vec_of::<F>(s, 1)[0], vec_of::<F>(s, 1)[0]);
        let e = expr::<F>(s, 2, 2) + ArithExpr::Var(1);
        let ev = hal.compile_expr(&ArithCircuit::from(&e)).unwrap();
        let (da, db) = (up!(hal, dev_alloc, &a), up!(hal, dev_alloc, &b));
        let g0 = up!(hal, dev_alloc, &a);
        let mut dm = up!(hal, dev_alloc, &init);
        let g1 = up!(hal, dev_alloc, &a);
        // twice: scratch memory of the first run is dirty in the second
        for round in 0..2 {
            let cm = Dev::<F, C>::slice_mut(&mut dm, ..);
            let maps = vec![
                KernelMemMap::Chunked { data: Dev::<F, C>::as_const(&da), log_min_chunk_size: min },
                KernelMemMap::Chunked { data: Dev::<F, C>::as_const(&db), log_min_chunk_size: 0 },
                KernelMemMap::ChunkedMut { data: cm, log_min_chunk_size: 0 },
                KernelMemMap::Local { log_size: k },
            ];
            let got = hal
                .execute(|x| {
                    x.accumulate_kernels(
                        |ke, log_chunks, bufs| {
                            let Ok([a, b, m, l]) = TryInto::<[KernelBuffer<'_, F, _>; 4]>::try_into(bufs) else { unreachable!() };
                            let (KernelBuffer::Mut(mut m), KernelBuffer::Mut(mut lm)) = (m, l) else { unreachable!() };
                            let ll = k - log_chunks;
                            // scratch starts as zero: scratch += a, then m += scratch, and b + scratch
                            ke.add_assign(ll, a.to_ref(), &mut lm)?;
                            let l = KernelBuffer::<F, KernelMem<'_, F, C::H>>::Mut(lm);
                            ke.add_assign(ll, l.to_ref(), &mut m)?;
                            let mut acc = ke.decl_value(F::ZERO)?;
                            ke.sum_composition_evals(&SlicesBatch::new(vec![a.to_ref(), b.to_ref()], 1 << ll), &ev, coeff, &mut acc)?;
                            if loc {
                                let mut acc2 = ke.decl_value(F::ZERO)?;
                                ke.sum_composition_evals(&SlicesBatch::new(vec![b.to_ref(), l.to_ref()], 1 << ll), &ev, F::ONE, &mut acc2)?;
                                Ok(vec![acc, acc2])
                            } else {
                                Ok(vec![acc])
                            }
                        },
                        maps,
                    )
                })
                .unwrap();
            let mut want = vec![(0..n).map(|i| value(&e, &[a[i], b[i]])).sum::<F>() * coeff];
            if loc {
                want.push((0..n).map(|i| value(&e, &[b[i], a[i]])).sum::<F>());
            }
            ensures!(got == want, "accumulated kernels sum over all rows", "{k} {min} {loc} round {round}");
            let m = down::<F, C::H>(hal, Dev::<F, C>::as_const(&dm));
            for i in 0..n {
                let e = if round == 0 { init[i] + a[i] } else { init[i] };
                ensures!(m[i] == e, "kernels write every row of a mutable buffer once, with scratch memory zero at the start", "{k} {i} round {round}");
            }
        }
        // map_kernels: out = a + b
        let maps = vec![
            KernelMemMap::Chunked { data: Dev::<F, C>::as_const(&da), log_min_chunk_size: min },
            KernelMemMap::Chunked { data: Dev::<F, C>::as_const(&db), log_min_chunk_size: 0 },
            KernelMemMap::ChunkedMut { data: Dev::<F, C>::slice_mut(&mut dm, ..), log_min_chunk_size: 0 },
        ];
        hal.execute(|x| {
            x.map_kernels(
                |ke, log_chunks, bufs| {
                    let Ok([a, b, m]) = TryInto::<[KernelBuffer<'_, F, _>; 3]>::try_into(bufs) else { unreachable!() };
                    let KernelBuffer::Mut(mut m) = m else { unreachable!() };
                    ke.add(k - log_chunks, a.to_ref(), b.to_ref(), &mut m)
                },
                maps,
            )?;
            Ok(vec![])
        })
        .unwrap();
        let m = down::<F, C::H>(hal, Dev::<F, C>::as_const(&dm));
        for i in 0..n {
            ensures!(m[i] == a[i] + b[i], "mapped kernels process every row", "{k} {min} {i}");
        }
        for g in [&g0, &g1, &da] {
            ensures!(down::<F, C::H>(hal, Dev::<F, C>::as_const(g)) == a, "kernels write only their buffers");
        }
        // a failing kernel fails the operation
        let maps = vec![KernelMemMap::ChunkedMut { data: Dev::<F, C>::slice_mut(&mut dm, ..), log_min_chunk_size: 0 }];
        let r = hal.execute(|x| {
            x.map_kernels(|_, _, _| Err(binius_compute::layer::Error::InputValidation("no".into())), maps)?;
            Ok(vec![])
        });
        ensures!(r.is_err(), "a failing kernel fails the operation");
        let _ = start;
        Ok(())
    }
    fn joins<F: TowerField, C: Holder<F>>(s: &mut NSrc) -> R {
        let mut h = C::mk(M);
        let ComputeData { hal, dev_alloc, .. } = &mut h.to_data();
        let n = s.range(0, 40) as usize;
        let vs: Vec<(Vec<F>, Vec<F>)> = (0..n).map(|_| (vec_of(s, 4), vec_of(s, 4))).collect();
        let dev: Vec<_> = vs.iter().map(|(a, b)| (Dev::<F, C>::to_const(up!(hal, dev_alloc, a)), Dev::<F, C>::to_const(up!(hal, dev_alloc, b)))).collect();
        let ip = |(a, b): &(Vec<F>, Vec<F>)| a.iter().zip(b).map(|(&x, &y)| x * y).sum::<F>();
        let got = hal
            .execute(|x| {
                x.map(dev.iter(), |x, (a, b)| x.inner_product(SubfieldSlice::new(*a, F::TOWER_LEVEL), *b))
            })
            .unwrap();
        ensures!(got == vs.iter().map(ip).collect::<Vec<_>>(), "results of a map come in the order of its items", "{n}");
        if n >= 2 {
            let got = hal
                .execute(|x| {
                    let ((a, b), c) = x.join(
                        |x| {
                            x.join(
                                |x| x.inner_product(SubfieldSlice::new(dev[0].0, F::TOWER_LEVEL), dev[0].1),
                                |x| x.inner_product(SubfieldSlice::new(dev[1].0, F::TOWER_LEVEL), dev[1].1),
                            )
                        },
                        |x| x.inner_product(SubfieldSlice::new(dev[n - 1].0, F::TOWER_LEVEL), dev[n - 1].1),
                    )?;
                    Ok(vec![a, b, c])
                })
                .unwrap();
            ensures!(got == vec![ip(&vs[0]), ip(&vs[1]), ip(&vs[n - 1])], "a join returns the results of both sides in order");
            let e = hal.execute(|x| {
                x.join(
                    |x| x.inner_product(SubfieldSlice::new(dev[0].0, F::TOWER_LEVEL), dev[0].1),
                    |_| Err::<(), _>(binius_compute::layer::Error::InputValidation("no".into())),
                )?;
                Ok(vec![])
            });
            ensures!(e.is_err(), "a failing side fails the join");
        }
        Ok(())
    }
    /// Any sequence of allocations, scopes and splits hands out disjoint regions: writing one
    /// pattern to each leaves all of them as written.
    fn regions<F: TowerField, C: Holder<F>>(s: &mut NSrc) -> R {
        let mut h = C::mk(256);
        let ComputeData { hal, dev_alloc, .. } = &mut h.to_data();
        let align = Dev::<F, C>::ALIGNMENT;
        let mut cap = ComputeAllocator::<F, Dev<F, C>>::capacity(dev_alloc);
        ensures!(cap == 256, "the capacity of a fresh allocator");
        let mut pieces: Vec<(FSliceMut<'_, F, C::H>, Vec<F>)> = vec![];
        for _ in 0..s.range(1, 9) {
            let n = 1usize << s.below(8);
            let before = ComputeAllocator::<F, Dev<F, C>>::capacity(dev_alloc);
            ensures!(before == cap, "the capacity is what has not been handed out");
            match dev_alloc.alloc(n) {
                Ok(d) => {
                    ensures!(n <= cap && d.len() == n, "an allocation has the requested length", "{n} {cap}");
                    cap -= n.max(align);
                    // split it up
                    let mut todo = vec![d];
                    let mut done = vec![];
                    while let Some(d) = todo.pop() {
                        if d.len() == 1 || s.below(3) == 0 {
                            done.push(d);
                            continue;
                        }
                        let l = d.len();
                        match s.below(3) {
                            0 => {
                                let (a, b) = Dev::<F, C>::split_half_mut(d);
                                ensures!(a.len() == l / 2 && b.len() == l / 2, "halves have half the length");
                                todo.push(a);
                                todo.push(b);
                            }
                            1 if l > align => {
                                let at = s.range(1, (l / align) - 1) as usize * align;
                                let (a, b) = Dev::<F, C>::split_at_mut(d, at);
                                ensures!(a.len() == at && b.len() == l - at, "a split at a position", "{l} {at}");
                                done.push(a);
                                done.push(b);
                            }
                            2 if l >= 2 * align && l.is_power_of_two() => {
                                let c = l / 2;
                                let v: Vec<_> = Dev::<F, C>::slice_chunks_mut(d, c).collect();
                                ensures!(v.len() == 2 && v.iter().all(|x| x.len() == c), "chunks of a slice");
                                todo.extend(v);
                            }
                            _ => done.push(d),
                        }
                    }
                    for d in done {
                        let v = vec_of::<F>(s, d.len());
                        pieces.push((d, v));
                    }
                }
                Err(_) => ensures!(n > cap, "an allocation fails only without room", "{n} {cap}"),
            }
        }
        for (d, v) in &mut pieces {
            hal.copy_h2d(v, d).unwrap();
        }
        for (d, v) in &mut pieces {
            ensures!(down::<F, C::H>(hal, Dev::<F, C>::as_const(d)) == *v, "regions handed out are disjoint");
            // views of a region
            let l = d.len();
            let i = s.below(4);
            let a = s.below((l / align.min(l))) as usize * align.min(l);
            let c = Dev::<F, C>::as_const(d);
            if i == 0 && a + align.min(l) <= l {
                let r = Dev::<F, C>::slice(c, a..a + align.min(l));
                ensures!(down::<F, C::H>(hal, r) == v[a..a + align.min(l)], "a range of a region");
            }
            if i == 1 && l > 1 && l.is_power_of_two() {
                let (x, y) = Dev::<F, C>::split_half(c);
                ensures!(down::<F, C::H>(hal, x) == v[..l / 2] && down::<F, C::H>(hal, y) == v[l / 2..], "halves of a region");
            }
            if i == 2 && l.is_power_of_two() && l >= align {
                let n = 1usize << s.below(l.ilog2() as usize + 1);
                let new = vec_of::<F>(s, n);
                {
                    let mut r = Dev::<F, C>::slice_power_of_two_mut(d, n);
                    ensures!(r.len() == n, "the head of a region");
                    hal.copy_h2d(&new, &mut r).unwrap();
                }
                v[..n].copy_from_slice(&new);
                ensures!(down::<F, C::H>(hal, Dev::<F, C>::as_const(d)) == *v, "a write through the head of a region", "{l} {n}");
            }
            // (known finding: reborrowed parts of a packed element)
            if i == 3 && l >= align {
                let new = vec_of::<F>(s, l);
                {
                    let mut r = Dev::<F, C>::slice_mut(d, ..);
                    hal.copy_h2d(&new, &mut r).unwrap();
                }
                *v = new;
                ensures!(down::<F, C::H>(hal, Dev::<F, C>::as_const(d)) == *v, "a write through a reborrowed region", "{l}");
            }
            if l >= 2 {
                let c = Dev::<F, C>::as_const(d);
                ensures!(catches(|| down::<F, C::H>(hal, Dev::<F, C>::slice(c, 0..l * 2 * align))).is_none(), "a range outside a region is refused", "{l}");
                ensures!(catches(|| down::<F, C::H>(hal, Dev::<F, C>::slice(c, 0..l * align * 4 / 4 + align))).is_none(), "a range outside a region is refused", "{l}");
            }
        }
        // what the parts hold is what the whole holds: everything written is still there
        for (d, v) in &pieces {
            ensures!(down::<F, C::H>(hal, Dev::<F, C>::as_const(d)) == *v, "regions handed out stay disjoint");
        }
        Ok(())
    }
    /// Writing through split parts is visible in the whole once the parts are gone.
    fn parts_whole<P: PackedField<Scalar: Fx>>(s: &mut NSrc) -> R {
        let n = 1usize << s.below(4);
        let mut mem: Vec<P> = (0..n).map(|_| any_pk(s)).collect();
        let mut model: Vec<P::Scalar> = PackedField::iter_slice(&mem).collect();
        {
            let v = PackedMemorySliceMut::new_slice(&mut mem);
            let mut todo = vec![(v, 0usize)];
            while let Some((mut d, at)) = todo.pop() {
                let l = d.len();
                if s.bool() {
                    // write one element here
                    let (k, x) = (s.below(l) as usize, el(s));
                    // (the known finding about reborrowed parts is set aside)
                    if s.bool() && (l >= P::WIDTH || at % P::WIDTH == 0) {
                        let mut w = PackedMemory::<P>::to_owned_mut(&mut d);
                        set_packed(&mut w, k, x);
                    } else {
                        set_packed(&mut d, k, x);
                    }
                    model[at + k] = x;
                }
                if s.below(8) == 0 {
                    let c = PackedMemory::<P>::to_const(d);
                    ensures!(scalars(&c) == model[at..at + l], "a view made constant holds its elements");
                } else if l > 1 {
                    let (a, b) = PackedMemory::<P>::split_half_mut(d);
                    ensures!(scalars(&a.as_const()) == model[at..at + l / 2] && scalars(&b.as_const()) == model[at + l / 2..at + l], "halves hold their elements");
                    todo.push((a, at));
                    todo.push((b, at + l / 2));
                }
            }
        }
        ensures!(PackedField::iter_slice(&mem).collect::<Vec<_>>() == model, "what is written through the parts is in the whole");
        Ok(())
    }
    fn set_packed<P: PackedField>(v: &mut PackedMemorySliceMut<'_, P>, k: usize, x: P::Scalar) {
        v.as_slice_mut()[k / P::WIDTH].set(k % P::WIDTH, x)
    }
    /// The number of chunks respects every mapping.
    fn chunk_range(s: &mut NSrc) -> R {
        let mem = vec![BinaryField128b::ZERO; 256];
        let ks: Vec<(usize, usize, usize)> = (0..s.range(1, 4)).map(|_| { let k = s.below(9) as usize; (k, s.below(9) as usize, s.below(2)) }).collect();
        let maps: Vec<KernelMemMap<'_, BinaryField128b, CpuMemory>> = ks
            .iter()
            .map(|&(k, m, t)| if t == 0 { KernelMemMap::Chunked { data: &mem[..1 << k], log_min_chunk_size: m } } else { KernelMemMap::Local { log_size: k } })
            .collect();
        let e = ks.iter().map(|&(k, m, t)| if t == 0 { k - m.min(k) } else { k }).min().unwrap();
        ensures!(KernelMemMap::log_chunks_range(&maps) == Some(0..e), "the possible numbers of chunks", "{ks:?}");
        Ok(())
    }
    fn backend<F: TowerField + PackedExtension<FS> + ExtensionField<FS>, FS: BinaryField + TowerField, C: Holder<F> + 'static>(r: &mut Runner, n: &'static str) {
        let nm = |k: &str| -> &'static str { Box::leak(format!("{k}_{n}").into_boxed_str()) };
        r.sampled(nm("copies"), "copy_h2d, copy_d2h, copy_d2d, fill", 60, copies::<F, C>);
        r.sampled(nm("tensor"), "tensor_expand, eq_ind_partial_eval", 60, tensor::<F, C>);
        r.sampled(nm("inner"), "inner_product", 60, inner::<F, C>);
        r.sampled(nm("folds"), "fold_left, fold_right", 120, folds::<F, C>);
        r.sampled(nm("fri"), "fri_fold", 120, fri::<F, FS, C>);
        r.sampled(nm("lines"), "extrapolate_line", 80, lines::<F, C>);
        r.sampled(nm("composite"), "compile_expr, compute_composite", 120, composite::<F, C>);
        r.sampled(nm("products"), "pairwise_product_reduce", 60, products::<F, C>);
        r.sampled(nm("kernels"), "accumulate_kernels, map_kernels, sum_composition_evals, add, add_assign", 100, kernels::<F, C>);
        r.sampled(nm("joins"), "join, map", 30, joins::<F, C>);
        r.sampled(nm("regions"), "BumpAllocator, ComputeMemory views", 150, regions::<F, C>);
    }
    pub fn register(r: &mut Runner) {
        backend::<BinaryField128b, BinaryField16b, CpuB>(r, "cpu");
        backend::<BinaryField128b, BinaryField16b, FastB<PackedBinaryField1x128b>>(r, "fast_1x");
        backend::<BinaryField128b, BinaryField32b, FastB<PackedBinaryField2x128b>>(r, "fast_2x");
        backend::<BinaryField128b, BinaryField16b, FastB<PackedBinaryField4x128b>>(r, "fast_4x");
        backend::<AESTowerField128b, AESTowerField16b, FastA<ByteSlicedAES16x128b>>(r, "fast_aes_bytesliced");
        backend::<AESTowerField128b, AESTowerField16b, FastA<PackedAESBinaryField2x128b>>(r, "fast_aes_2x");
        r.sampled("parts_whole_4x32", "PackedMemorySliceMut", 400, parts_whole::<PackedBinaryField4x32b>);
        r.sampled("parts_whole_8x16", "PackedMemorySliceMut", 400, parts_whole::<PackedBinaryField8x16b>);
        r.sampled("parts_whole_4x128", "PackedMemorySliceMut", 400, parts_whole::<PackedBinaryField4x128b>);
        r.sampled("chunk_range", "KernelMemMap::log_chunks_range", 400, chunk_range);
    }
}
