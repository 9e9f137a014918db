//! C08: additive NTT and Reed-Solomon encoding.
use crate::rt::*;
use crate::spec::Fx;
use crate::{ensures, obligations};
use binius_field::*;
use binius_math::BinarySubspace;
use binius_ntt::{AdditiveNTT, NTTShape, SingleThreadedNTT};

/// Normalised subspace polynomial of span(basis[..k]) at x, by its definition as a product.
fn what<F: Field>(basis: &[F], k: usize, x: F) -> F {
    let (mut num, mut den) = (F::ONE, F::ONE);
    for m in 0..1usize << k {
        let mut u = F::ZERO;
        for (b, &v) in basis.iter().take(k).enumerate() {
            if m >> b & 1 == 1 {
                u += v;
            }
        }
        num *= x + u;
        den *= basis[k] + u;
    }
    num * den.invert_or_zero()
}
/// The i-th element of the span of the basis.
fn point<F: Field>(basis: &[F], i: usize) -> F {
    let mut x = F::ZERO;
    for (b, &v) in basis.iter().enumerate() {
        if i >> b & 1 == 1 {
            x += v;
        }
    }
    x
}
/// Novel basis polynomials X_0 .. X_{2^n - 1} at x.
fn novel<F: Field>(basis: &[F], n: usize, x: F) -> Vec<F> {
    let mut v = vec![F::ONE];
    for k in 0..n {
        let w = what(basis, k, x);
        for j in 0..1 << k {
            v.push(v[j] * w);
        }
    }
    v
}

/// All multiples of every unit vector through a fixed transform.
fn small<P: PackedField<Scalar = BinaryField8b>, const LEN: usize, const LX: usize, const LY: usize, const LZ: usize, const COSET: usize, const CB: usize, const FROM: usize, const TO: usize>(s: &mut impl Src) -> R {
    let ntt = SingleThreadedNTT::<BinaryField8b>::new(LY + CB).unwrap();
    // the canonical domain: the unit vectors
    let sub = [BinaryField8b::of(1), BinaryField8b::of(2), BinaryField8b::of(4), BinaryField8b::of(8)];
    let v = s.word(8);
    let shape = NTTShape { log_x: LX, log_y: LY, log_z: LZ };
    for at in FROM..TO {
        let mut data = [P::zero(); LEN];
        data[at / P::WIDTH].set(at % P::WIDTH, BinaryField8b::of(v));
        let orig = data;
        let ok = ntt.forward_transform(&mut data, shape, COSET, CB, 0).is_ok();
        ensures!(ok, "valid shapes are transformed");
        let (zi, j, xi) = (at >> (LX + LY), at >> LX & ((1 << LY) - 1), at & ((1 << LX) - 1));
        for y in 0..1usize << LY {
            // the j-th novel basis polynomial at the y-th point of the coset
            let mut pt = BinaryField8b::ZERO;
            for (b, &v) in sub.iter().enumerate() {
                if (COSET << LY | y) >> b & 1 == 1 {
                    pt += v;
                }
            }
            let mut m = BinaryField8b::ONE;
            for k in 0..LY {
                if j >> k & 1 == 1 {
                    m *= what(&sub, k, pt);
                }
            }
            for x in 0..1usize << LX {
                for z in 0..1usize << LZ {
                    let e = if x == xi && z == zi { crate::spec::tmul_def(3, m.raw(), v) } else { 0 };
                    let i = z << (LX + LY) | y << LX | x;
                    ensures!(data[i / P::WIDTH].get(i % P::WIDTH).raw() == e, "the transform evaluates the polynomial with the given novel basis coefficients");
                }
            }
        }
        let ok = ntt.inverse_transform(&mut data, shape, COSET, CB, 0).is_ok();
        ensures!(ok && data == orig, "the inverse transform recovers the coefficients");
    }
    Ok(())
}

#[cfg(not(kani))]
pub use nat::register;
#[cfg(not(kani))]
mod nat {
    use super::*;
    use crate::spec::*;
    use binius_core::reed_solomon::reed_solomon::ReedSolomonCode;
    use binius_ntt::twiddle::*;
    use binius_ntt::{DynamicDispatchNTT, NTTOptions, OddInterpolate, ThreadingSettings};

    fn basis_of<F: BinaryField + Fx>(s: &mut NSrc, dim: usize) -> Vec<F> {
        if s.below(3) != 0 {
            return BinarySubspace::<F>::with_dim(dim).unwrap().basis().to_vec();
        }
        let mut v = vec![F::ONE];
        let mut span = vec![F::ZERO, F::ONE];
        while v.len() < dim {
            let x: F = el(s);
            let x = if span.contains(&x) { (0..F::NB).map(|b| F::of(1 << b)).find(|x| !span.contains(x)).unwrap() } else { x };
            for i in 0..span.len() {
                span.push(span[i] + x);
            }
            v.push(x);
        }
        v
    }
    /// Definition of the domain of dimension n of an NTT with the given basis.
    fn domain<F: Field>(basis: &[F], n: usize) -> Vec<F> {
        let k = basis.len() - n;
        (k..basis.len()).map(|j| what(basis, k, basis[j])).collect()
    }
    fn scalars<P: PackedField<Scalar: Fx>>(d: &[P]) -> Vec<P::Scalar> {
        d.iter().flat_map(|p| p.iter()).collect()
    }
    fn reference<F: Field, E: ExtensionField<F>>(dom: &[F], shape: NTTShape, coset: usize, skip: usize, data: &[E]) -> Vec<E> {
        let NTTShape { log_x, log_y, log_z } = shape;
        let mut out = data.to_vec();
        let ly = log_y - skip;
        for c in 0..1usize << skip {
            for y in 0..1usize << ly {
                let row = novel(dom, ly, point(dom, (coset << skip | c) << ly | y));
                for x in 0..1usize << log_x {
                    for z in 0..1usize << log_z {
                        let idx = |y: usize| z << (log_x + log_y) | c << (log_x + ly) | y << log_x | x;
                        out[idx(y)] = row.iter().enumerate().map(|(j, &m)| data[idx(j)] * m).sum();
                    }
                }
            }
        }
        out
    }
    fn check<F, P>(s: &mut NSrc, ntt: &impl AdditiveNTT<F>, name: &str, dom: &[F], data: &[P], shape: NTTShape, coset: usize, cb: usize, skip: usize, expect: &[P::Scalar]) -> R
    where
        F: BinaryField + Fx,
        P: PackedField<Scalar: ExtensionField<F> + Fx> + PackedExtension<F>,
    {
        let _ = s;
        let n = expect.len();
        ensures!(ntt.subspace(dom.len()).basis() == dom, "the subspaces of an NTT are the images of its domain", "{name} dim {}", dom.len());
        let mut d = data.to_vec();
        ensures!(ntt.forward_transform_ext(&mut d, shape, coset, cb, skip).is_ok(), "valid shapes are transformed", "{name} {shape:?} {coset}/{cb} skip {skip} len {}", d.len());
        let got = scalars(&d);
        ensures!(got[..n] == *expect, "the transform evaluates the polynomial with the given novel basis coefficients", "{name} {shape:?} coset {coset}/{cb} skip {skip} len {} width {}", d.len(), P::WIDTH);
        ensures!(ntt.inverse_transform_ext(&mut d, shape, coset, cb, skip).is_ok(), "valid shapes are transformed", "{name} {shape:?} inverse");
        ensures!(scalars(&d)[..n] == scalars(data)[..n], "the inverse transform recovers the coefficients", "{name} {shape:?} coset {coset}/{cb} skip {skip} len {} width {}", d.len(), P::WIDTH);
        Ok(())
    }
    fn transforms<F, P>(s: &mut NSrc) -> R
    where
        F: BinaryField + Fx,
        P: PackedField<Scalar: ExtensionField<F> + Fx> + PackedExtension<F>,
    {
        let maxd = (F::NB as usize).min(7);
        let dim = 1 + s.below(maxd);
        let canonical = s.bool();
        let basis: Vec<F> = if canonical { BinarySubspace::<F>::with_dim(dim).unwrap().basis().to_vec() } else { basis_of(s, dim) };
        let log_y = s.below(dim.min(5) + 1);
        let cb = s.below(dim - log_y + 1);
        if log_y + cb == 0 {
            return Err(Stop::Vacuous);
        }
        let coset = s.below(1 << cb);
        let skip = if s.bool() { 0 } else { s.below(log_y + 1) };
        let (log_x, log_z) = (s.below(4), s.below(3));
        let shape = NTTShape { log_x, log_y, log_z };
        let total = log_x + log_y + log_z;
        let len = 1usize << total.saturating_sub(P::LOG_WIDTH);
        let data: Vec<P> = (0..len).map(|_| P::from_scalars(els::<P::Scalar>(s, P::WIDTH))).collect();
        let dom = domain(&basis, log_y + cb);
        let expect = reference(&dom, shape, coset, skip, &scalars(&data)[..1 << total]);
        let sub = BinarySubspace::new_unchecked(basis.clone());
        let st = || SingleThreadedNTT::with_subspace(&sub).unwrap();
        check::<F, P>(s, &st(), "single", &dom, &data, shape, coset, cb, skip, &expect)?;
        check::<F, P>(s, &st().precompute_twiddles(), "single precomputed", &dom, &data, shape, coset, cb, skip, &expect)?;
        let lt = s.below(6);
        check::<F, P>(s, &st().multithreaded_with_max_threads(lt), &format!("{lt} log threads"), &dom, &data, shape, coset, cb, skip, &expect)?;
        check::<F, P>(s, &st().precompute_twiddles().multithreaded_with_max_threads(lt), &format!("{lt} log threads precomputed"), &dom, &data, shape, coset, cb, skip, &expect)?;
        if canonical {
            let o = NTTOptions { precompute_twiddles: s.bool(), thread_settings: if s.bool() { ThreadingSettings::ExplicitThreadsCount { log_threads: lt } } else if s.bool() { ThreadingSettings::MultithreadedDefault } else { ThreadingSettings::SingleThreaded } };
            let d = DynamicDispatchNTT::<F>::new(dim, &o).unwrap();
            check::<F, P>(s, &d, "dynamic", &dom, &data, shape, coset, cb, skip, &expect)?;
        }
        Ok(())
    }
    /// Larger transforms: all implementations and packings agree (with each other and with a split into two halves).
    fn large<F, P, Q>(s: &mut NSrc) -> R
    where
        F: BinaryField + Fx,
        P: PackedField<Scalar = F>,
        Q: PackedField<Scalar = F>,
    {
        let dim = (F::NB as usize).min(12);
        let log_y = s.below(dim.min(10) + 1);
        let cb = s.below(dim - log_y + 1);
        let coset = s.below(1 << cb);
        let skip = if s.bool() { 0 } else { s.below(log_y + 1) };
        let (mut log_x, log_z) = (s.below(5), s.below(3));
        if log_x + log_y + log_z > 12 {
            log_x = 0;
        }
        let shape = NTTShape { log_x, log_y, log_z };
        let total = log_x + log_y + log_z;
        let vals: Vec<F> = els(s, 1 << total);
        let pack = |v: &[F]| -> (Vec<P>, Vec<Q>) { (v.chunks(P::WIDTH).map(|c| P::from_scalars(c.iter().copied())).collect(), v.chunks(Q::WIDTH).map(|c| Q::from_scalars(c.iter().copied())).collect()) };
        let (p0, q0) = pack(&vals);
        let lt = 1 + s.below(6);
        let st = SingleThreadedNTT::<F>::new(dim).unwrap();
        let mt = SingleThreadedNTT::<F>::new(dim).unwrap().precompute_twiddles().multithreaded_with_max_threads(lt);
        let inv = s.bool();
        let run = |mt_: bool, p: &mut [P]| if mt_ { if inv { mt.inverse_transform(p, shape, coset, cb, skip) } else { mt.forward_transform(p, shape, coset, cb, skip) } } else if inv { st.inverse_transform(p, shape, coset, cb, skip) } else { st.forward_transform(p, shape, coset, cb, skip) };
        let (mut a, mut b) = (p0.clone(), p0.clone());
        ensures!(run(false, &mut a).is_ok() && run(true, &mut b).is_ok(), "valid shapes are transformed", "{shape:?} {coset}/{cb} {skip}");
        ensures!(scalars2(&a)[..1 << total] == scalars2(&b)[..1 << total], "all implementations agree", "{shape:?} {coset}/{cb} skip {skip} threads {lt} inverse {inv}");
        let mut c = q0.clone();
        if inv { st.inverse_transform(&mut c, shape, coset, cb, skip).unwrap() } else { st.forward_transform(&mut c, shape, coset, cb, skip).unwrap() };
        ensures!(scalars2(&a)[..1 << total] == scalars2(&c)[..1 << total], "all packing widths agree", "{shape:?} {coset}/{cb} skip {skip} inverse {inv}");
        // round trip
        let mut d = a.clone();
        if inv { mt.forward_transform(&mut d, shape, coset, cb, skip).unwrap() } else { mt.inverse_transform(&mut d, shape, coset, cb, skip).unwrap() };
        ensures!(scalars2(&d)[..1 << total] == vals[..], "the two directions are inverse to each other", "{shape:?} {coset}/{cb} skip {skip}");
        // one butterfly layer links a transform to the two half-size ones
        if !inv && skip == 0 && log_y > 0 && log_z == 0 && log_x == 0 {
            let dom = st.subspace(log_y + cb);
            let t = what_fast(dom.basis(), log_y - 1, point(dom.basis(), coset << log_y));
            let h = 1usize << (log_y - 1);
            let u: Vec<F> = (0..h).map(|i| vals[i] + vals[i + h] * t).collect();
            let v: Vec<F> = (0..h).map(|i| u[i] + vals[i + h]).collect();
            for (k, half) in [u, v].into_iter().enumerate() {
                let mut e = half.clone();
                st.forward_transform(&mut e, NTTShape { log_y: log_y - 1, ..Default::default() }, coset << 1 | k, cb + 1, 0).unwrap();
                ensures!(scalars2(&a)[k * h..(k + 1) * h] == e[..], "the transform splits along the highest variable", "log_y {log_y} {coset}/{cb}");
            }
        }
        Ok(())
    }
    fn scalars2<P: PackedField>(d: &[P]) -> Vec<P::Scalar> {
        d.iter().flat_map(|p| p.iter()).collect()
    }
    /// what() by the recursion W_{k+1} = W_k (W_k + W_k(beta_k)).
    fn what_fast<F: Field>(basis: &[F], k: usize, x: F) -> F {
        let w = |mut x: F, k: usize, norms: &[F]| {
            for n in &norms[..k] {
                x = x * (x + *n);
            }
            x
        };
        let mut norms = vec![];
        for j in 0..=k {
            let n = w(basis[j], j, &norms);
            norms.push(n);
        }
        w(x, k, &norms) * norms[k].invert_or_zero()
    }
    fn twiddles<F: BinaryField + Fx>(s: &mut NSrc) -> R {
        let dim = 1 + s.below((F::NB as usize).min(6));
        let basis = basis_of::<F>(s, dim);
        let sub = BinarySubspace::new_unchecked(basis.clone());
        let otf = OnTheFlyTwiddleAccess::generate(&sub).unwrap();
        let pre = PrecomputedTwiddleAccess::generate(&sub).unwrap();
        ensures!(otf.len() == dim && pre.len() == dim, "one twiddle access per round");
        fn one<F: BinaryField + Fx>(s: &mut NSrc, t: &impl TwiddleAccess<F>, basis: &[F], i: usize) -> R {
            let dim = basis.len();
            ensures!(t.log_n() == dim - 1 - i, "the number of twiddles of a round");
            let at = |idx: usize| what(basis, i, point(&basis[i + 1..], idx));
            let idx = s.below(1 << t.log_n());
            ensures!(t.get(idx) == at(idx), "twiddles are subspace polynomial values", "round {i} index {idx}");
            if t.log_n() > 0 {
                let bits = s.below(t.log_n());
                let j = s.below(1 << bits);
                ensures!(t.get_pair(bits, j) == (at(j), at(1 << bits | j)), "pairs of twiddles", "round {i} bits {bits} index {j}");
            }
            let (sp, shift) = t.affine_subspace();
            ensures!(shift == F::ZERO && sp.dim() == t.log_n() + 1 && sp.basis()[0] == F::ONE && (0..t.log_n()).all(|j| sp.basis()[j + 1] == at(1 << j)), "the span of the twiddles");
            let cb = s.below(t.log_n() + 1);
            let c = s.below(1 << cb);
            let ct = t.coset(cb, c);
            let low = t.log_n() - cb;
            ensures!(ct.log_n() == low, "the number of twiddles of a coset");
            let k = s.below(1 << low);
            ensures!(ct.get(k) == at(c << low | k), "a coset fixes the upper bits", "round {i} coset {c}/{cb} index {k}");
            if low > 0 {
                let bits = s.below(low);
                let j = s.below(1 << bits);
                ensures!(ct.get_pair(bits, j) == (at(c << low | j), at(c << low | 1 << bits | j)), "pairs of twiddles of a coset");
            }
            let (sp, shift) = ct.affine_subspace();
            ensures!(shift == at(c << low) && sp.basis()[0] == F::ONE && (0..low).all(|j| sp.basis()[j + 1] == at(1 << j)), "the affine span of a coset's twiddles");
            Ok(())
        }
        for i in 0..dim {
            one(s, &otf[i], &basis, i)?;
            one(s, &pre[i], &basis, i)?;
        }
        let bad: Vec<F> = basis.iter().map(|&b| b * F::MULTIPLICATIVE_GENERATOR).collect();
        if F::NB > 1 {
            ensures!(OnTheFlyTwiddleAccess::generate(&BinarySubspace::new_unchecked(bad)).is_err(), "domains have to start with one");
        }
        ensures!(OnTheFlyTwiddleAccess::<F>::generate(&BinarySubspace::new_unchecked(vec![])).is_err(), "the empty domain is an error");
        ensures!(SingleThreadedNTT::<F>::new(F::NB as usize + 1 + s.below(3)).is_err(), "domains larger than the field are an error");
        Ok(())
    }
    fn odd<F: BinaryField + Fx>(s: &mut NSrc) -> R {
        let dim = 1 + s.below((F::NB as usize).min(6));
        let basis = basis_of::<F>(s, dim);
        let ell = s.below(dim + 1);
        let cb = s.below(dim - ell + 1);
        if ell + cb == 0 || cb == 0 && ell == 0 {
            return Err(Stop::Vacuous);
        }
        let ntt = SingleThreadedNTT::with_subspace(&BinarySubspace::new_unchecked(basis.clone())).unwrap();
        let ntt2 = SingleThreadedNTT::with_subspace(&BinarySubspace::new_unchecked(basis.clone())).unwrap().precompute_twiddles();
        ensures!(OddInterpolate::new(&ntt, (1 << cb) + 1, ell, cb).is_err(), "more cosets than there are is an error");
        ensures!(OddInterpolate::new(&ntt, 1, ell + dim + 1, cb).is_err(), "domains larger than the NTT's are an error");
        let d = 1 + s.below((1usize << cb).min(11));
        let oi = OddInterpolate::new(&ntt, d, ell, cb);
        ensures!(oi.is_ok(), "every number of cosets can be interpolated", "d {d} ell {ell} coset bits {cb}");
        let data: Vec<F> = els(s, d << ell);
        let mut c = data.clone();
        ensures!(oi.unwrap().inverse_transform(&mut c).is_ok(), "data of the right length is interpolated");
        let mut c2 = data.clone();
        OddInterpolate::new(&ntt2, d, ell, cb).unwrap().inverse_transform(&mut c2).unwrap();
        ensures!(c == c2, "all implementations agree", "odd interpolation");
        let dom = domain(&basis, ell + cb);
        for (i, &v) in data.iter().enumerate() {
            let row = novel(&dom, ell + cb, point(&dom, i));
            let e: F = c.iter().zip(&row).map(|(&a, &b)| a * b).sum();
            ensures!(e == v, "interpolated coefficients evaluate to the data", "d {d} ell {ell} coset bits {cb} point {i}");
        }
        let mut short = vec![F::ZERO; (d << ell) - 1];
        ensures!(OddInterpolate::new(&ntt, d, ell, cb).unwrap().inverse_transform(&mut short).is_err(), "data of the wrong length is an error");
        Ok(())
    }
    fn rs<F, P>(s: &mut NSrc) -> R
    where
        F: BinaryField + Fx,
        P: PackedField<Scalar: ExtensionField<F> + Fx> + PackedExtension<F>,
    {
        let dim = 1 + s.below((F::NB as usize).min(7));
        let basis = basis_of::<F>(s, dim);
        let sub = BinarySubspace::new_unchecked(basis.clone());
        let st = SingleThreadedNTT::with_subspace(&sub).unwrap();
        let lt = s.below(4);
        let mt = SingleThreadedNTT::with_subspace(&sub).unwrap().precompute_twiddles().multithreaded_with_max_threads(lt);
        let log_len = 1 + s.below(dim);
        let log_dim = s.below(log_len.min(5) + 1);
        let rate = log_len - log_dim;
        let batch = s.below(4);
        let code = ReedSolomonCode::with_ntt_subspace(&st, log_dim, rate);
        ensures!(code.is_ok(), "codes up to the domain's size exist");
        let code = code.unwrap();
        ensures!(ReedSolomonCode::with_ntt_subspace(&st, log_dim, dim + 1 - log_dim.min(dim)).is_err() && ReedSolomonCode::with_subspace(sub.clone(), dim, 1).is_err(), "codes larger than the domain are an error");
        ensures!(code.len() == 1 << log_len && code.log_len() == log_len && code.dim() == 1 << log_dim && code.log_dim() == log_dim && code.inv_rate() == 1 << rate && code.log_inv_rate() == rate, "the code's parameters");
        let dom = domain(&basis, log_len);
        ensures!(code.subspace().basis() == dom, "the code's domain");
        let total = log_len + batch;
        let len = 1usize << total.saturating_sub(P::LOG_WIDTH);
        let buf: Vec<P> = (0..len).map(|_| P::from_scalars(els::<P::Scalar>(s, P::WIDTH))).collect();
        let msg = scalars(&buf)[..1 << (log_dim + batch)].to_vec();
        let (mut a, mut b) = (buf.clone(), buf.clone());
        ensures!(code.encode_ext_batch_inplace(&st, &mut a, batch).is_ok() && code.encode_ext_batch_inplace(&mt, &mut b, batch).is_ok(), "messages of the right size are encoded");
        let (a, b) = (scalars(&a), scalars(&b));
        for i in 0..1usize << log_len {
            let row = novel(&dom, log_dim, point(&dom, i));
            for x in 0..1usize << batch {
                let e: P::Scalar = row.iter().enumerate().map(|(j, &m)| msg[j << batch | x] * m).sum();
                ensures!(a[i << batch | x] == e, "the codeword is the message polynomial on the whole domain", "log_dim {log_dim} rate {rate} batch {batch} symbol {i} width {}", P::WIDTH);
            }
        }
        ensures!(a[..1 << total] == b[..1 << total], "all implementations agree", "encoding");
        let mut wrong = vec![P::zero(); len + 1];
        ensures!(code.encode_ext_batch_inplace(&st, &mut wrong, batch).is_err(), "a buffer of the wrong length is an error");
        let other = SingleThreadedNTT::with_subspace(&BinarySubspace::new_unchecked(basis_of::<F>(s, dim))).unwrap();
        let same = other.subspace(log_len).basis() == dom;
        let mut c = buf.clone();
        ensures!(code.encode_ext_batch_inplace(&other, &mut c, batch).is_ok() == same, "an NTT over another domain is an error");
        Ok(())
    }
    fn errors<P: PackedField<Scalar: BinaryField + Fx>>(s: &mut NSrc) -> R {
        let dim = 1 + s.below((P::Scalar::NB as usize).min(5));
        let st = SingleThreadedNTT::<P::Scalar>::new(dim).unwrap();
        let (log_x, log_y, log_z) = (s.below(4), s.below(6), s.below(3));
        let cb = s.below(4);
        let coset = s.below(10);
        let skip = s.below(7);
        let len = s.below(34);
        let mut data = vec![P::zero(); len];
        let size = log_x + log_y + log_z;
        let fits = if len > 2 { size == (len * P::WIDTH).trailing_zeros() as usize } else { true };
        let valid = len.is_power_of_two() && skip <= log_y && fits && coset < 1 << cb && log_y + cb <= dim;
        let shape = NTTShape { log_x, log_y, log_z };
        if len > 2 || size > (len * P::WIDTH).max(1).trailing_zeros() as usize || !len.is_power_of_two() {
            let valid = valid && (len > 2);
            ensures!(st.forward_transform(&mut data, shape, coset, cb, skip).is_ok() == valid, "transforms fail exactly on invalid sizes, cosets and rounds", "len {len} {shape:?} {coset}/{cb} skip {skip} dim {dim}");
            ensures!(st.inverse_transform(&mut data, shape, coset, cb, skip).is_ok() == valid, "transforms fail exactly on invalid sizes, cosets and rounds", "inverse len {len} {shape:?} {coset}/{cb} skip {skip} dim {dim}");
            let mt = SingleThreadedNTT::<P::Scalar>::new(dim).unwrap().multithreaded_with_max_threads(2);
            ensures!(mt.forward_transform(&mut data, shape, coset, cb, skip).is_ok() == valid && mt.inverse_transform(&mut data, shape, coset, cb, skip).is_ok() == valid, "transforms fail exactly on invalid sizes, cosets and rounds", "multithreaded len {len} {shape:?} {coset}/{cb} skip {skip} dim {dim}");
        }
        Ok(())
    }
    /// The default domain, and the domain isomorphic to the canonical one.
    fn domains(s: &mut NSrc) -> R {
        let dim = 1 + s.below(8);
        let a = SingleThreadedNTT::<AESTowerField8b>::with_canonical_field(dim).unwrap();
        let b = SingleThreadedNTT::<BinaryField8b>::new(dim).unwrap();
        let c = SingleThreadedNTT::<AESTowerField8b>::with_domain_field::<BinaryField8b>(dim).unwrap();
        let log_y = s.below(dim.min(6) + 1);
        let cb = dim - log_y;
        let coset = s.below(1 << cb);
        let v: Vec<BinaryField8b> = els(s, 1 << log_y);
        let mut x = v.clone();
        let mut y: Vec<AESTowerField8b> = v.iter().map(|&x| x.into()).collect();
        let mut z = y.clone();
        let shape = NTTShape { log_y, ..Default::default() };
        b.forward_transform(&mut x, shape, coset, cb, 0).unwrap();
        a.forward_transform(&mut y, shape, coset, cb, 0).unwrap();
        c.forward_transform(&mut z, shape, coset, cb, 0).unwrap();
        ensures!(x.iter().zip(&y).all(|(&p, &q)| AESTowerField8b::from(p) == q) && y == z, "the transform over the canonical domain is the same in isomorphic fields");
        Ok(())
    }
    pub fn register(r: &mut Runner) {
        macro_rules! t {
            ($($name:ident: $f:ty, $p:ty;)*) => {$(
                r.sampled(&format!("transforms_{}", stringify!($name)), "AdditiveNTT::{forward_transform,inverse_transform,forward_transform_ext,inverse_transform_ext} of SingleThreadedNTT, MultithreadedNTT, DynamicDispatchNTT", 500, |s| transforms::<$f, $p>(s));
                r.sampled(&format!("rs_{}", stringify!($name)), "ReedSolomonCode::encode_ext_batch_inplace", 400, |s| rs::<$f, $p>(s));
            )*};
        }
        t! {
            b8: BinaryField8b, BinaryField8b;
            b8x2: BinaryField8b, PackedBinaryField2x8b;
            b8x16: BinaryField8b, PackedBinaryField16x8b;
            b8x32: BinaryField8b, PackedBinaryField32x8b;
            b16x8: BinaryField16b, PackedBinaryField8x16b;
            b16x4: BinaryField16b, PackedBinaryField4x16b;
            b32x4: BinaryField32b, PackedBinaryField4x32b;
            b32x16: BinaryField32b, PackedBinaryField16x32b;
            b64x2: BinaryField64b, PackedBinaryField2x64b;
            b128: BinaryField128b, BinaryField128b;
            b4x8: BinaryField4b, PackedBinaryField8x4b;
            b2x8: BinaryField2b, PackedBinaryField8x2b;
            aes8x16: AESTowerField8b, PackedAESBinaryField16x8b;
            aes32x8: AESTowerField32b, PackedAESBinaryField8x32b;
            aes8_sliced: AESTowerField8b, ByteSlicedAES16x8b;
            b8_ext32x4: BinaryField8b, PackedBinaryField4x32b;
            b8_ext128: BinaryField8b, PackedBinaryField1x128b;
            b16_ext128x4: BinaryField16b, PackedBinaryField4x128b;
            b32_ext128x2: BinaryField32b, PackedBinaryField2x128b;
            aes16_ext128x2: AESTowerField16b, PackedAESBinaryField2x128b;
        }
        r.sampled("large_b16", "AdditiveNTT implementations", 300, |s| large::<BinaryField16b, PackedBinaryField8x16b, BinaryField16b>(s));
        r.sampled("large_b8", "AdditiveNTT implementations", 300, |s| large::<BinaryField8b, PackedBinaryField64x8b, PackedBinaryField4x8b>(s));
        r.sampled("large_b128", "AdditiveNTT implementations", 30, |s| large::<BinaryField128b, PackedBinaryField4x128b, PackedBinaryField1x128b>(s));
        r.sampled("large_aes32", "AdditiveNTT implementations", 200, |s| large::<AESTowerField32b, PackedAESBinaryField8x32b, PackedAESBinaryField4x32b>(s));
        macro_rules! f {
            ($($t:ident)*) => {$(
                r.sampled(&format!("twiddles_{}", stringify!($t)), "OnTheFlyTwiddleAccess, PrecomputedTwiddleAccess", 500, |s| twiddles::<$t>(s));
                r.sampled(&format!("odd_{}", stringify!($t)), "OddInterpolate", 500, |s| odd::<$t>(s));
            )*};
        }
        f!(BinaryField2b BinaryField4b BinaryField8b BinaryField16b BinaryField32b BinaryField128b AESTowerField8b AESTowerField32b);
        r.sampled("errors_b8x4", "check_batch_transform_inputs_and_params", 20000, |s| errors::<PackedBinaryField4x8b>(s));
        r.sampled("errors_b16", "check_batch_transform_inputs_and_params", 20000, |s| errors::<BinaryField16b>(s));
        r.sampled("domains", "SingleThreadedNTT::{new,with_canonical_field,with_domain_field}", 2000, domains);
        super::obligations(r);
    }
}

obligations! {
    ntt_size_2, quick, 10, "bounded: size 2 in coset 1 of 2, all data over GF(256)", "SingleThreadedNTT::{forward_transform,inverse_transform}, OnTheFlyTwiddleAccess", small::<BinaryField8b, 2, 0, 1, 0, 1, 1, 0, 2>;
}
