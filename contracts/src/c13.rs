//! C13: multilinear extensions.
use crate::rt::*;
use crate::spec::*;
use crate::{ensures, obligations};
use binius_field::*;
use binius_math::*;
use std::mem::MaybeUninit;

/// The equality indicator of the point at the i-th vertex of the hypercube (low bit = first variable).
pub fn eq<F: Field>(point: &[F], i: usize) -> F {
    let mut p = F::ONE;
    for (b, &r) in point.iter().enumerate() {
        p *= if i >> b & 1 == 1 { r } else { F::ONE - r };
    }
    p
}
/// The definition: values weighted by the equality indicator.
pub fn mle_at<F: Field, E: ExtensionField<F>>(v: &[F], point: &[E]) -> E {
    let mut acc = E::ZERO;
    for (i, &x) in v.iter().enumerate() {
        acc += eq(point, i) * E::from(x);
    }
    acc
}
/// Values of the partial evaluation with the query placed at variables start..start+k, for arbitrary weights w.
fn part<F: Field, E: ExtensionField<F>>(v: &[F], w: &[E], start: usize) -> Vec<E> {
    let n = v.len() / w.len();
    let mut out = vec![E::ZERO; n];
    for (o, out) in out.iter_mut().enumerate() {
        let (lo, hi) = (o & ((1 << start) - 1), o >> start);
        for (t, &wt) in w.iter().enumerate() {
            *out += wt * E::from(v[lo | (t | hi * w.len()) << start]);
        }
    }
    out
}
fn pack<P: PackedField>(v: &[P::Scalar]) -> Vec<P> {
    let mut out = vec![P::zero(); v.len().div_ceil(P::WIDTH)];
    for (i, &x) in v.iter().enumerate() {
        out[i / P::WIDTH].set(i % P::WIDTH, x);
    }
    out
}
fn unpack<P: PackedField>(v: &[P], n: usize) -> Vec<P::Scalar> {
    let mut out = vec![];
    for i in 0..n {
        out.push(v[i / P::WIDTH].get(i % P::WIDTH));
    }
    out
}

/// A right, left or middle fold of fixed shape for all values, the query being an arbitrary vector.
fn fold_small<P: PackedField<Scalar: Fx>, PE: PackedField<Scalar: Fx + ExtensionField<P::Scalar>>, const KIND: usize, const N: usize, const K: usize>(s: &mut impl Src) -> R {
    let v: Vec<P::Scalar> = els(s, 1 << N);
    let w: Vec<PE::Scalar> = els(s, 1 << K);
    let (ev, q) = (pack::<P>(&v), pack::<PE>(&w));
    let len = (1usize << (N - K)).div_ceil(PE::WIDTH);
    let (ok, out, start) = match KIND {
        0 => {
            let mut out = vec![PE::zero(); len];
            (fold_right(&ev, N, &q, K, &mut out).is_ok(), out, 0)
        }
        _ => {
            let mut out: Vec<PE> = Vec::with_capacity(len);
            let start = if KIND == 1 { N - K } else { 1 };
            let sl: &mut [MaybeUninit<PE>] = &mut out.spare_capacity_mut()[..len];
            let ok = if KIND == 1 { fold_left(&ev, N, &q, K, sl) } else { fold_middle(&ev, N, &q, K, start, sl) }.is_ok();
            unsafe { out.set_len(len) };
            (ok, out, start)
        }
    };
    ensures!(ok, "valid sizes are folded");
    let e = part(&v, &w, start);
    for (i, e) in e.iter().enumerate() {
        ensures!(out[i / PE::WIDTH].get(i % PE::WIDTH) == *e, "a fold is the matrix-vector product of the values and the query");
    }
    Ok(())
}
/// Linear-interpolation folds of fixed shape for all values.
fn lerp_small<P: PackedField<Scalar: Fx>, const N: usize>(s: &mut impl Src) -> R {
    let size = s.below((1 << N) + 1);
    let suffix: P::Scalar = el(s);
    let z: P::Scalar = el(s);
    let mut v: Vec<P::Scalar> = els(s, 1 << N);
    for x in v.iter_mut().skip(size) {
        *x = suffix;
    }
    let ev = pack::<P>(&v);
    let half = 1usize << (N - 1);
    let mut out = vec![P::zero(); half.div_ceil(P::WIDTH)];
    let ok = fold_right_lerp::<P, P>(&ev, size, z, suffix, &mut out).is_ok();
    ensures!(ok, "a right interpolation of valid size");
    for i in 0..size.div_ceil(2) {
        let e = v[2 * i] + (v[2 * i + 1] - v[2 * i]) * z;
        ensures!(out[i / P::WIDTH].get(i % P::WIDTH) == e, "right interpolation is the line through neighbouring values");
    }
    Ok(())
}

#[cfg(not(kani))]
pub use nat::register;
#[cfg(not(kani))]
mod nat {
    use super::*;
    use binius_core::composition::ProductComposition;
    use binius_core::polynomial::MultilinearComposite;
    use itertools::Either;
    use std::sync::Arc;

    fn vals<F: Fx>(s: &mut NSrc, n: usize) -> Vec<F> {
        lanes::<F>(s, n).into_iter().map(F::of).collect()
    }
    /// The point, mixing special coordinates in.
    fn point<F: Fx>(s: &mut NSrc, n: usize) -> Vec<F> {
        (0..n).map(|_| match s.below(6) { 0 => F::ZERO, 1 => F::ONE, _ => el(s) }).collect()
    }
    /// Garbage in the lanes beyond the values, when fewer than one packed element is used.
    fn packg<P: PackedField<Scalar: Fx>>(s: &mut NSrc, v: &[P::Scalar]) -> Vec<P> {
        let mut out = pack::<P>(v);
        if v.len() < P::WIDTH && s.bool() {
            for i in v.len()..P::WIDTH {
                out[0].set(i, el(s));
            }
        }
        out
    }
    fn same<P: PackedField<Scalar: Fx>>(m: &MultilinearExtension<P>, n: usize, e: &[P::Scalar]) -> bool {
        m.n_vars() == n && m.size() == 1 << n && m.evals().len() == (1usize << n).div_ceil(P::WIDTH) && unpack(m.evals(), 1 << n) == e
    }
    fn mle<P, PE>(s: &mut NSrc) -> R
    where
        P: PackedField<Scalar: Fx>,
        PE: PackedField<Scalar: Fx + ExtensionField<P::Scalar>>,
    {
        let n = if s.below(4) == 0 { s.below(10) } else { s.below(7) };
        let v: Vec<P::Scalar> = vals(s, 1 << n);
        let buf = packg::<P>(s, &v);
        let m = MultilinearExtension::new(n, buf.clone());
        ensures!(m.is_ok(), "a table of 2^n values is a multilinear");
        let m = m.unwrap();
        ensures!(m.n_vars() == n && m.size() == 1 << n && m.evals() == &buf[..], "the multilinear keeps its table");
        let wrong = s.below(12);
        let fits = buf.len().is_power_of_two() && if wrong < P::LOG_WIDTH { buf.len() == 1 } else { buf.len() == 1 << (wrong - P::LOG_WIDTH) };
        ensures!(MultilinearExtension::new(wrong, buf.clone()).is_ok() == fits, "tables of another size are rejected");
        let mut odd = buf.clone();
        odd.resize(buf.len() * 2 + 1, P::zero());
        ensures!(MultilinearExtension::from_values(odd.clone()).is_err() && MultilinearExtension::from_values_slice(&odd).is_err() && MultilinearExtension::<P>::from_values(vec![]).is_err(), "tables whose size is not a power of two are rejected");
        if n >= P::LOG_WIDTH {
            let a = MultilinearExtension::from_values(buf.clone()).unwrap();
            let b = MultilinearExtension::from_values_slice(&buf).unwrap();
            ensures!(a == m && b.n_vars() == n && b.evals() == a.evals() && m.to_ref() == b && m.clone().into_evals() == buf, "constructors agree");
            let z = MultilinearExtension::<P>::zeros(n).unwrap();
            ensures!(same(&z, n, &vec![P::Scalar::ZERO; 1 << n]), "the zero multilinear");
        } else {
            ensures!(MultilinearExtension::<P>::zeros(n).is_err(), "a zero multilinear narrower than the packing is rejected");
        }
        let i = s.below((2 << n) + 2);
        match m.evaluate_on_hypercube(i) {
            Ok(x) => ensures!(i < 1 << n && x == v[i], "values on the hypercube"),
            Err(_) => ensures!(i >= 1 << n, "values on the hypercube exist"),
        }
        match m.packed_evaluate_on_hypercube(i) {
            Ok(x) => ensures!(i < buf.len() && x == buf[i], "packed values on the hypercube"),
            Err(_) => ensures!(i >= buf.len(), "packed values on the hypercube exist"),
        }
        // evaluation
        let p: Vec<PE::Scalar> = point(s, n);
        let q = MultilinearQuery::<PE>::expand(&p);
        let y: Result<PE::Scalar, _> = m.evaluate(&q);
        ensures!(y.is_ok() && y.unwrap() == mle_at(&v, &p), "evaluation is the sum over the hypercube weighted by the equality indicator", "{n} variables");
        // partial evaluation at every place
        let k = s.below(n + 3);
        let p: Vec<PE::Scalar> = point(s, k);
        let q = MultilinearQuery::<PE>::expand(&p);
        ensures!(m.evaluate::<PE::Scalar, PE>(&q).is_ok() == (k == n), "queries of another size are rejected");
        let start = s.below(n + 2);
        let w: Vec<PE::Scalar> = (0..1usize << k).map(|i| eq(&p, i)).collect();
        let got = m.evaluate_partial(&q, start);
        if start + k > n {
            ensures!(got.is_err(), "a query beyond the variables is rejected", "{n} {k} {start}");
        } else {
            ensures!(got.is_ok(), "a query within the variables is evaluated");
            ensures!(same(&got.unwrap(), n - k, &part(&v, &w, start)), "partial evaluation assigns the named variables", "{n} {k} {start}");
        }
        if k <= n {
            ensures!(same(&m.evaluate_partial_low(&q).unwrap(), n - k, &part(&v, &w, 0)), "partial evaluation of the low variables", "{n} {k}");
            ensures!(same(&m.evaluate_partial_high(&q).unwrap(), n - k, &part(&v, &w, n - k)), "partial evaluation of the high variables", "{n} {k}");
        } else {
            ensures!(m.evaluate_partial_low(&q).is_err() && m.evaluate_partial_high(&q).is_err(), "a query of too many variables is rejected", "{n} {k}");
        }
        Ok(())
    }
    fn pad<P, PE>(s: &mut NSrc) -> R
    where
        P: PackedField<Scalar: Fx>,
        PE: PackedField<Scalar: Fx + ExtensionField<P::Scalar>>,
    {
        let n = s.below(7);
        let v: Vec<P::Scalar> = vals(s, 1 << n);
        let m = MultilinearExtension::new(n, packg::<P>(s, &v)).unwrap();
        let (np, start) = (s.below(4), s.below(n + 2));
        let nz = s.below((1 << np) + 2);
        let got = m.zero_pad::<PE>(np, start, nz);
        if start > n || nz >= 1 << np {
            ensures!(got.is_err(), "zero padding outside the variables is rejected");
            return Ok(());
        }
        ensures!(got.is_ok(), "valid zero padding");
        let mut e = vec![PE::Scalar::ZERO; 1 << (n + np)];
        for (i, &x) in v.iter().enumerate() {
            e[i & ((1 << start) - 1) | nz << start | i >> start << (start + np)] = x.into();
        }
        ensures!(same(&got.unwrap(), n + np, &e), "zero padding places the values in the named block", "{n} + {np} at {start} block {nz}");
        Ok(())
    }
    fn query<P: PackedField<Scalar: Fx>>(s: &mut NSrc) -> R {
        let n = s.below(8);
        let p: Vec<P::Scalar> = point(s, n);
        let e: Vec<P::Scalar> = (0..1usize << n).map(|i| eq(&p, i)).collect();
        let q = MultilinearQuery::<P>::expand(&p);
        ensures!(q.n_vars() == n && unpack(q.expansion(), 1 << n) == e && q.to_ref().n_vars() == n && q.to_ref().expansion() == q.expansion(), "the expansion of a query is its equality indicator");
        ensures!(unpack(&eq_ind_partial_eval::<P>(&p), 1 << n) == e, "the partially evaluated equality indicator");
        // incremental
        let cap = s.below(9);
        let mut q = MultilinearQuery::<P>::with_capacity(cap);
        let mut at = 0;
        while at < n {
            let step = 1 + s.below(n - at);
            let room = at + step <= cap.max(P::LOG_WIDTH);
            match q.update(&p[at..at + step]) {
                Ok(x) => {
                    ensures!(room, "a query beyond its capacity is rejected");
                    q = x;
                }
                Err(_) => {
                    ensures!(!room, "a query within its capacity is extended", "{at} + {step} of {cap}");
                    return Ok(());
                }
            }
            at += step;
            ensures!(q.n_vars() == at && q.expansion().len() == (1usize << at).div_ceil(P::WIDTH) && unpack(q.expansion(), 1 << at) == (0..1usize << at).map(|i| eq(&p[..at], i)).collect::<Vec<_>>(), "extending a query coordinate by coordinate");
        }
        let buf = pack::<P>(&e);
        let big = s.below(10);
        let w = MultilinearQuery::with_expansion(big, buf.clone());
        ensures!(w.is_ok() == (buf.len() >= (1usize << big).div_ceil(P::WIDTH)), "an expansion shorter than the query is rejected");
        // tensor products over given values
        let m = s.below(5);
        let v: Vec<P::Scalar> = vals(s, 1 << m);
        let mut t = pack::<P>(&v);
        t.resize((1usize << (m + n)).div_ceil(P::WIDTH), P::zero());
        if s.below(8) == 0 {
            t.push(P::zero());
            ensures!(tensor_prod_eq_ind(m, &mut t, &p).is_err(), "a buffer of another size is rejected");
            return Ok(());
        }
        ensures!(tensor_prod_eq_ind(m, &mut t, &p).is_ok(), "a buffer of the right size");
        for i in 0..1usize << (m + n) {
            ensures!(t[i / P::WIDTH].get(i % P::WIDTH) == v[i & ((1 << m) - 1)] * e[i >> m], "the tensor product with the equality indicator");
        }
        Ok(())
    }
    fn folds<P, PE>(s: &mut NSrc) -> R
    where
        P: PackedField<Scalar: Fx>,
        PE: PackedField<Scalar: Fx + ExtensionField<P::Scalar>>,
    {
        let n = s.below(11);
        let k = s.below(n + 2);
        let v: Vec<P::Scalar> = vals(s, 1 << n);
        let w: Vec<PE::Scalar> = match s.below(3) {
            0 => vals(s, 1 << k),
            1 => { let p: Vec<PE::Scalar> = point(s, k); (0..1usize << k).map(|i| eq(&p, i)).collect() }
            _ => { let a = s.below(1 << k); (0..1usize << k).map(|i| if i == a { PE::Scalar::ONE } else { PE::Scalar::ZERO }).collect() }
        };
        // values and queries may be given in larger buffers
        let (mut ev, mut q) = (packg::<P>(s, &v), packg::<PE>(s, &w));
        if s.below(4) == 0 {
            for _ in 0..1 + s.below(3) {
                ev.push(P::broadcast(el(s)));
            }
        }
        if s.below(4) == 0 {
            for _ in 0..1 + s.below(3) {
                q.push(PE::broadcast(el(s)));
            }
        }
        let len = (1usize << n.saturating_sub(k)).div_ceil(PE::WIDTH);
        let start = s.below(n + 2);
        let bad = s.below(10);
        let short = if bad == 0 { 1 } else { 0 };
        if k > n || (bad == 1 && v.len() >= P::WIDTH && w.len() >= PE::WIDTH) {
            if k <= n {
                if s.bool() { ev.truncate((v.len() / P::WIDTH).saturating_sub(1)) } else { q.truncate((w.len() / PE::WIDTH).saturating_sub(1)) }
            }
            let mut out = vec![PE::zero(); len];
            let mut un = vec![MaybeUninit::<PE>::uninit(); len];
            ensures!(fold_right(&ev, n, &q, k, &mut out).is_err() && fold_left(&ev, n, &q, k, &mut un).is_err() && fold_middle(&ev, n, &q, k, start, &mut un).is_err(), "folds of inconsistent sizes are rejected");
            return Ok(());
        }
        // fold_right: guard elements after the output show that nothing else is written
        let guard = PE::broadcast(el(s));
        let mut out = vec![guard; len + 2];
        let r = fold_right(&ev, n, &q, k, &mut out[..len - short]);
        ensures!(r.is_ok() == (short == 0) && out[len] == guard && out[len + 1] == guard, "a right fold writes its output only, and rejects a short output", "{n} {k}");
        if short == 0 {
            ensures!(unpack(&out, 1 << (n - k)) == part(&v, &w, 0), "a right fold is the matrix-vector product", "{n} {k}");
        }
        for kind in 0..2 {
            let mut un = vec![MaybeUninit::new(guard); len + 2];
            let sl = &mut un[..len - short];
            let (r, st) = if kind == 0 { (fold_left(&ev, n, &q, k, sl), n - k) } else { (fold_middle(&ev, n, &q, k, start, sl), start) };
            let un: Vec<PE> = un.into_iter().map(|x| unsafe { x.assume_init() }).collect();
            ensures!(r.is_ok() == (short == 0 && st + k <= n) && un[len] == guard && un[len + 1] == guard, "a fold writes its output only, and rejects inconsistent sizes", "kind {kind} {n} {k} {st}");
            if r.is_ok() {
                ensures!(unpack(&un, 1 << (n - k)) == part(&v, &w, st), "a fold is the matrix-vector product", "kind {kind} {n} {k} {st}");
            }
        }
        Ok(())
    }
    fn lerps<P, PE>(s: &mut NSrc) -> R
    where
        P: PackedField<Scalar: Fx>,
        PE: PackedField<Scalar: Fx + ExtensionField<P::Scalar>>,
    {
        let n = 1 + s.below(8);
        let size = s.below((1 << n) + 1);
        let suffix: P::Scalar = if s.bool() { P::Scalar::ZERO } else { el(s) };
        let mut v: Vec<P::Scalar> = vals(s, 1 << n);
        for x in v.iter_mut().skip(size) {
            *x = suffix;
        }
        let full = pack::<P>(&v);
        // only the packed elements holding the prefix are stored; a partial one is filled up with the suffix
        let ev: Vec<P> = if n < P::LOG_WIDTH { full.clone() } else { full[..size.div_ceil(P::WIDTH)].to_vec() };
        let z: PE::Scalar = match s.below(5) { 0 => PE::Scalar::ZERO, 1 => PE::Scalar::ONE, _ => el(s) };
        let half = size.div_ceil(2);
        let len = half.div_ceil(PE::WIDTH);
        let mut out = vec![PE::zero(); len + 1];
        let r = fold_right_lerp(&ev, size, z, suffix, &mut out[..len]);
        ensures!(r.is_ok() && out[len] == PE::zero(), "right interpolation of a prefix");
        for i in 0..half {
            let e = PE::Scalar::from(v[2 * i]) + PE::Scalar::from(v[2 * i + 1] - v[2 * i]) * z;
            ensures!(out[i / PE::WIDTH].get(i % PE::WIDTH) == e, "right interpolation is the line through neighbouring values", "size {size} index {i}");
        }
        if len > 0 && PE::WIDTH * (len - 1) * 2 < size {
            ensures!(fold_right_lerp(&ev, size, z, suffix, &mut out[..len - 1]).is_err(), "an output too short is rejected");
        }
        if !ev.is_empty() && P::WIDTH * (ev.len() - 1) < size {
            ensures!(fold_right_lerp(&ev[..ev.len() - 1], size, z, suffix, &mut out).is_err(), "values fewer than their size are rejected");
        }
        // left interpolation within the same packed field
        let z: P::Scalar = match s.below(5) { 0 => P::Scalar::ZERO, 1 => P::Scalar::ONE, _ => el(s) };
        let hn = 1usize << (n - 1);
        let pre = size.min(hn);
        let e: Vec<P::Scalar> = (0..hn).map(|i| v[i] + (v[i | hn] - v[i]) * z).collect();
        let mut ip = ev.clone();
        let r = fold_left_lerp_inplace(&mut ip, size, suffix, n, z);
        ensures!(r.is_ok() && ip.len() * P::WIDTH >= pre && unpack(&ip, pre) == e[..pre], "in-place left interpolation", "{size} of 2^{n}");
        let olen = pre.div_ceil(P::WIDTH);
        let guard = P::broadcast(el(s));
        let mut un = vec![MaybeUninit::new(guard); olen + 1];
        let r = fold_left_lerp(&ev, size, suffix, n, z, &mut un[..olen]);
        let un: Vec<P> = un.into_iter().map(|x| unsafe { x.assume_init() }).collect();
        ensures!(r.is_ok() && un[olen] == guard && unpack(&un, pre) == e[..pre], "left interpolation", "{size} of 2^{n}");
        // rejected sizes
        let mut c = ev.clone();
        ensures!(fold_left_lerp_inplace(&mut c, (1 << n) + 1, suffix, n, z).is_err() && fold_left_lerp_inplace(&mut c, 0, suffix, 0, z).is_err() && c == ev, "left interpolation of inconsistent sizes is rejected");
        Ok(())
    }
    fn adapters<P, PE>(s: &mut NSrc) -> R
    where
        P: PackedField<Scalar: Fx>,
        PE: PackedField<Scalar: Fx + ExtensionField<P::Scalar>> + RepackedExtension<P> + PackedExtension<<PE as PackedField>::Scalar, PackedSubfield = PE>,
    {
        let n = s.below(9);
        let v: Vec<P::Scalar> = vals(s, 1 << n);
        let buf = packg::<P>(s, &v);
        let m = MultilinearExtension::new(n, buf.clone()).unwrap();
        let emb = m.to_ref().specialize::<PE>();
        ensures!(emb.log_extension_degree() == <PE::Scalar as ExtensionField<P::Scalar>>::LOG_DEGREE && MultilinearPoly::<PE>::packed_evals(&emb) == Some(<PE as PackedExtension<P::Scalar>>::cast_exts(&buf)), "the embedding adapter exposes its table");
        form::<P::Scalar, PE>(s, n, &v, &emb, "embedded")?;
        form::<P::Scalar, PE>(s, n, &v, &*m.clone().specialize_arc_dyn::<PE>(), "shared embedded")?;
        if s.bool() {
            form::<P::Scalar, PE>(s, n, &v, &Either::<_, MLEEmbeddingAdapter<P, PE>>::Left(emb), "left")?;
        }
        // the same values stored in the large field
        let big: Vec<PE::Scalar> = v.iter().map(|&x| x.into()).collect();
        let bm = MultilinearExtension::new(n, packg::<PE>(s, &big)).unwrap();
        let bbuf = bm.evals().to_vec();
        let dir = MLEDirectAdapter::from(bm.clone());
        ensures!(dir.log_extension_degree() == 0 && dir.packed_evals() == Some(&bbuf[..]), "the direct adapter exposes its table");
        form::<PE::Scalar, PE>(s, n, &big, &dir, "direct")?;
        form::<PE::Scalar, PE>(s, n, &big, &Either::<MLEEmbeddingAdapter<P, PE>, _>::Right(dir), "right")?;
        form::<PE::Scalar, PE>(s, n, &big, &*bm.clone().specialize_arc_dyn::<PE>(), "self embedding")?;
        // composites of multilinears
        let u: Vec<PE::Scalar> = vals(s, 1 << n);
        let um = MultilinearExtension::new(n, pack::<PE>(&u)).unwrap();
        let two: Vec<Arc<dyn MultilinearPoly<PE> + Send + Sync>> = vec![bm.specialize_arc_dyn(), um.specialize_arc_dyn()];
        let c = MultilinearComposite::new(n, ProductComposition::<2>, two.clone());
        ensures!(c.is_ok() && MultilinearComposite::new(n + 1, ProductComposition::<2>, two.clone()).is_err() && MultilinearComposite::new(n, ProductComposition::<3>, two).is_err(), "composites are validated");
        let c = c.unwrap();
        let p: Vec<PE::Scalar> = point(s, n);
        let q = MultilinearQuery::<PE>::expand(&p);
        ensures!(c.evaluate(&q).unwrap() == mle_at(&big, &p) * mle_at(&u, &p), "a composite evaluates to the composition of the evaluations");
        let i = s.below(1 << n);
        ensures!(c.evaluate_on_hypercube(i).unwrap() == big[i] * u[i] && c.n_vars() == n && c.n_multilinears() == 2 && CompositionPoly::<PE>::degree(&c.composition) == 2, "a composite on the hypercube");
        Ok(())
    }
    /// The behaviour common to all storage forms.
    fn form<F: Fx, PE: PackedField<Scalar: Fx + ExtensionField<F>>>(s: &mut NSrc, n: usize, v: &[F], m: &(impl MultilinearPoly<PE> + ?Sized), what: &str) -> R {
        type S<P> = <P as PackedField>::Scalar;
        ensures!(m.n_vars() == n && m.size() == 1 << n, "a form keeps its size");
        let i = s.below(1 << (n + 1));
        let c: S<PE> = el(s);
        let (a, b) = (m.evaluate_on_hypercube(i), m.evaluate_on_hypercube_and_scale(i, c));
        if i < 1 << n {
            ensures!(a.is_ok() && b.is_ok() && a.unwrap() == v[i].into() && b.unwrap() == c * S::<PE>::from(v[i]), "values of a form", "{what}");
        } else {
            ensures!(a.is_err() && b.is_err(), "vertices out of range are rejected", "{what}");
        }
        let k = s.below(n + 2);
        let p: Vec<S<PE>> = point(s, k);
        let q = MultilinearQuery::<PE>::expand(&p);
        let w: Vec<S<PE>> = (0..1usize << k).map(|i| eq(&p, i)).collect();
        let e = m.evaluate(q.to_ref());
        ensures!(e.is_ok() == (k == n), "queries of another size are rejected by every form", "{what}");
        if let Ok(e) = e {
            ensures!(e == mle_at(v, &p), "evaluation of a form", "{what}");
        }
        let start = s.below(n + 2);
        match s.below(4) {
            0 => { let r = m.evaluate_partial_low(q.to_ref()); ensures!(r.is_ok() == (k <= n) && (k > n || same(&r.unwrap(), n - k, &part(v, &w, 0))), "low partial evaluation of a form", "{what}"); }
            1 => { let r = m.evaluate_partial_high(q.to_ref()); ensures!(r.is_ok() == (k <= n) && (k > n || same(&r.unwrap(), n - k, &part(v, &w, n - k))), "high partial evaluation of a form", "{what}"); }
            2 => { let r = m.evaluate_partial(q.to_ref(), start); ensures!(r.is_ok() == (start + k <= n) && (start + k > n || same(&r.unwrap(), n - k, &part(v, &w, start))), "partial evaluation of a form", "{what}"); }
            _ => {
                let (np, nz) = (s.below(3), s.below(5));
                let r = m.zero_pad(np, start, nz);
                ensures!(r.is_ok() == (start <= n && nz < 1 << np), "zero padding of a form is validated", "{what}");
                if let Ok(r) = r {
                    let mut e = vec![S::<PE>::ZERO; 1 << (n + np)];
                    for (i, &x) in v.iter().enumerate() {
                        e[i & ((1 << start) - 1) | nz << start | i >> start << (start + np)] = x.into();
                    }
                    ensures!(same(&r, n + np, &e), "zero padding of a form", "{what} {n} {np} {start} {nz}");
                }
            }
        }
        // subcubes
        let sv = s.below(n + 2);
        let si = s.below((1 << n.saturating_sub(sv + k)) + 1);
        let wrong = s.below(8) == 0;
        let len = (1usize << sv).div_ceil(PE::WIDTH) + wrong as usize;
        let ok = sv + k <= n && si < 1 << (n - sv - k) && !wrong;
        for low in [true, false] {
            let mut out = vec![PE::broadcast(c); len];
            let r = if low { m.subcube_partial_low_evals(q.to_ref(), sv, si, &mut out) } else { m.subcube_partial_high_evals(q.to_ref(), sv, si, &mut out) };
            ensures!(r.is_ok() == ok, "partial evaluations on a subcube are validated", "{what} {n} {k} {sv} {si}");
            if ok {
                let e = part(v, &w, if low { 0 } else { n - k });
                ensures!(unpack(&out, 1 << sv) == e[si << sv..(si + 1) << sv], "partial evaluations on a subcube", "{what} low {low} {n} {k} {sv} {si}");
            }
        }
        let ld = m.log_extension_degree();
        let le = s.below(ld + 2);
        let si = s.below((1 << n.saturating_sub(sv)) + 1);
        let len = (1usize << sv.saturating_sub(le)).div_ceil(PE::WIDTH) + wrong as usize;
        let mut out = vec![PE::zero(); len];
        let r = m.subcube_evals(sv, si, le, &mut out);
        let ok = sv <= n && si < 1 << (n - sv) && !wrong && le <= ld.min(7);
        ensures!(r.is_ok() == ok, "subcube values are validated", "{what} {n} {sv} {si} embedding {le} of {ld}: {r:?}");
        if ok {
            let vs = &v[si << sv..(si + 1) << sv];
            for (j, ch) in vs.chunks(1 << le).enumerate() {
                let mut e = S::<PE>::ZERO;
                for (t, &x) in ch.iter().enumerate() {
                    e += <S<PE> as ExtensionField<F>>::basis(t << (ld - le)) * S::<PE>::from(x);
                }
                ensures!(out[j / PE::WIDTH].get(j % PE::WIDTH) == e, "subcube values combined over the subfield basis", "{what} {n} {sv} {si} embedding {le} of {ld}");
            }
        }
        Ok(())
    }
    /// Piecewise multilinears: the concatenation of the pieces.
    fn piecewise<F: Fx>(s: &mut NSrc) -> R {
        let maxv = s.below(6);
        let by: Vec<usize> = (0..=maxv).map(|_| if s.bool() { 0 } else { s.below(4) }).collect();
        let mut cat = vec![];
        let n = s.below(8);
        let p: Vec<F> = point(s, n);
        let mut ev = vec![];
        let mut fits = true;
        for nv in (0..=maxv).rev() {
            for _ in 0..by[nv] {
                let v: Vec<F> = vals(s, 1 << nv);
                if nv <= n {
                    ev.push(mle_at(&v, &p[..nv]));
                } else {
                    fits = false;
                }
                cat.extend(v);
            }
        }
        if !fits || cat.len() > 1 << n {
            let mut ev = vec![F::ZERO; by.iter().sum()];
            ensures!(evaluate_piecewise_multilinear(&p, &by, &mut ev).is_err(), "pieces longer than the hypercube are rejected");
            return Ok(());
        }
        let mut more = ev.clone();
        more.push(F::ONE);
        ensures!(evaluate_piecewise_multilinear(&p, &by, &mut more).is_err(), "another number of piece evaluations is rejected");
        if ev.is_empty() {
            return Err(Stop::Vacuous);
        }
        cat.resize(1 << n, F::ZERO);
        let r = evaluate_piecewise_multilinear(&p, &by, &mut ev);
        ensures!(r.is_ok() && r.unwrap() == mle_at(&cat, &p), "a piecewise multilinear is the concatenation of its pieces", "pieces {by:?} in {n} variables");
        Ok(())
    }
    pub fn register(r: &mut Runner) {
        macro_rules! pair { ($n:expr; $($name:literal $p:ty, $pe:ty;)*) => {$(
            r.sampled(concat!("evaluation_", $name), "MultilinearExtension::{new,from_values,evaluate,evaluate_partial,evaluate_partial_low,evaluate_partial_high}", $n, |s| mle::<$p, $pe>(s));
            r.sampled(concat!("folds_", $name), "fold_right, fold_left, fold_middle (fallback, 1-bit and interpolation paths)", $n, |s| folds::<$p, $pe>(s));
            r.sampled(concat!("interpolations_", $name), "fold_right_lerp, fold_left_lerp, fold_left_lerp_inplace", $n, |s| lerps::<$p, $pe>(s));
            r.sampled(concat!("zero_pad_", $name), "MultilinearExtension::zero_pad, zero_pad", $n, |s| pad::<$p, $pe>(s));
        )*}}
        pair! { 2000;
            "b1_b128" PackedBinaryField128x1b, BinaryField128b;
            "b1_b1x128" PackedBinaryField128x1b, PackedBinaryField1x128b;
            "b1_b2x128" PackedBinaryField256x1b, PackedBinaryField2x128b;
            "b1_b4x128" PackedBinaryField512x1b, PackedBinaryField4x128b;
            "b8x1_b16x8" PackedBinaryField8x1b, PackedBinaryField16x8b;
            "b8x1_b64x8" PackedBinaryField8x1b, PackedBinaryField64x8b;
            "b1_aes" PackedBinaryField128x1b, PackedAESBinaryField2x128b;
            "b1_polyval" PackedBinaryField256x1b, PackedBinaryPolyval2x128b;
            "b1x4_b32" PackedBinaryField4x1b, PackedBinaryField4x32b;
            "b2_b16" PackedBinaryField64x2b, PackedBinaryField8x16b;
            "b8_b8" PackedBinaryField16x8b, PackedBinaryField16x8b;
            "b16_b32" BinaryField16b, BinaryField32b;
            "b32_b128" PackedBinaryField4x32b, PackedBinaryField1x128b;
            "b128_b128" PackedBinaryField2x128b, PackedBinaryField2x128b;
            "sliced_b1" ByteSliced1x256x1b, PackedBinaryField2x128b;
            "sliced_aes" ByteSlicedAES16x8b, ByteSlicedAES16x128b;
        }
        macro_rules! ad { ($n:expr; $($name:literal $p:ty, $pe:ty;)*) => {$(
            r.sampled(concat!("forms_", $name), "MLEEmbeddingAdapter, MLEDirectAdapter, Either, MultilinearComposite: every MultilinearPoly method", $n, |s| adapters::<$p, $pe>(s));
        )*}}
        ad! { 2000;
            "b1_b128" PackedBinaryField128x1b, PackedBinaryField1x128b;
            "b1_b2x128" PackedBinaryField256x1b, PackedBinaryField2x128b;
            "b8_b4x128" PackedBinaryField64x8b, PackedBinaryField4x128b;
            "b8_b32" PackedBinaryField16x8b, PackedBinaryField4x32b;
            "b1_b8" PackedBinaryField8x1b, PackedBinaryField1x8b;
            "b16_b16" PackedBinaryField8x16b, PackedBinaryField8x16b;
            "aes8_aes128" PackedAESBinaryField32x8b, PackedAESBinaryField2x128b;
        }
        macro_rules! qs { ($($t:ident)*) => {$( r.sampled(concat!("query_", stringify!($t)), "MultilinearQuery, MultilinearQueryRef, eq_ind_partial_eval, tensor_prod_eq_ind", 2000, |s| query::<$t>(s)); )*}}
        qs! { BinaryField8b PackedBinaryField16x8b PackedBinaryField4x32b PackedBinaryField1x128b PackedBinaryField4x128b PackedBinaryPolyval2x128b PackedAESBinaryField2x128b ByteSlicedAES16x16b }
        r.sampled("piecewise_b32", "evaluate_piecewise_multilinear", 4000, |s| piecewise::<BinaryField32b>(s));
        r.sampled("piecewise_b128", "evaluate_piecewise_multilinear", 4000, |s| piecewise::<BinaryField128b>(s));
        super::obligations(r);
    }
}

obligations! {
    fold_right_bits_2_of_3, quick, 10, "bounded: 8 bits and 4 weights over GF(256)", "fold_right", fold_small::<PackedBinaryField8x1b, BinaryField8b, 0, 3, 2>;
    fold_middle_bits_1_of_3, quick, 10, "bounded: 8 bits and 2 weights over GF(256)", "fold_middle", fold_small::<PackedBinaryField8x1b, BinaryField8b, 2, 3, 1>;
    fold_left_bits_1_of_3, quick, 10, "bounded: 8 bits and 2 weights over GF(256)", "fold_left", fold_small::<PackedBinaryField8x1b, BinaryField8b, 1, 3, 1>;
    lerp_right_1, quick, 8, "bounded: prefixes of 2 values over GF(256)", "fold_right_lerp", lerp_small::<BinaryField8b, 1>;
}
