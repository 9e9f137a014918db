//! C14: interpolation, matrices and subspaces.
use crate::rt::*;
use crate::spec::*;
use crate::{ensures, obligations};
use binius_field::*;
use binius_math::*;

/// Value of the polynomial with the given coefficients, by powers.
fn poly<F: Field>(c: &[F], x: F) -> F {
    let (mut acc, mut p) = (F::ZERO, F::ONE);
    for &c in c {
        acc += c * p;
        p *= x;
    }
    acc
}
/// Single-line extrapolation for all values of a small field.
fn line<P: PackedExtension<F, Scalar = F> + PackedField<Scalar = F>, F: Fx>(s: &mut impl Src) -> R {
    let (a, b, z): (F, F, F) = (el(s), el(s), el(s));
    let e = a + (b - a) * z;
    let (pa, pb) = (P::broadcast(a), P::broadcast(b));
    let r = extrapolate_line::<P, F>(pa, pb, z);
    let t = extrapolate_lines(pa, pb, P::broadcast(z));
    ensures!(extrapolate_line_scalar::<F, F>(a, b, z) == e, "the line through two values");
    for i in 0..P::WIDTH {
        ensures!(r.get(i) == e && t.get(i) == e, "the line through two values in every lane");
    }
    Ok(())
}
fn horner<const N: usize>(s: &mut impl Src) -> R {
    let c: [BinaryField8b; N] = std::array::from_fn(|_| el(s));
    let x: BinaryField8b = el(s);
    ensures!(evaluate_univariate(&c, x) == poly(&c, x), "a univariate polynomial by its coefficients");
    Ok(())
}
fn subspace_small<const N: usize>(s: &mut impl Src) -> R {
    let mut b = vec![];
    for _ in 0..N {
        b.push(el::<BinaryField8b>(s));
    }
    let sub = BinarySubspace::new_unchecked(b.clone());
    let i = s.word(64) as usize;
    let mut e = BinaryField8b::ZERO;
    for (k, &x) in b.iter().enumerate() {
        if i >> k & 1 == 1 {
            e += x;
        }
    }
    ensures!(sub.dim() == N && sub.get(i) == e, "an element of a subspace is the combination of the basis by the bits of its index");
    match sub.get_checked(i) {
        Ok(x) => ensures!(i < 1 << N && x == e, "checked subspace access"),
        Err(_) => ensures!(i >= 1 << N, "checked subspace access covers the subspace"),
    }
    Ok(())
}
fn matvec<const M: usize, const N: usize>(s: &mut impl Src) -> R {
    let mut a = vec![];
    for _ in 0..M * N {
        a.push(el::<BinaryField1b>(s));
    }
    let m = Matrix::new(M, N, &a).unwrap();
    let x: [BinaryField8b; N] = std::array::from_fn(|_| el(s));
    let mut y = [BinaryField8b::ONE; M];
    m.mul_vec_into(&x, &mut y);
    for i in 0..M {
        let mut e = BinaryField8b::ZERO;
        for j in 0..N {
            if a[i * N + j] == BinaryField1b::ONE {
                e += x[j];
            }
        }
        ensures!(y[i] == e, "a matrix-vector product");
    }
    Ok(())
}
/// Inverses of all small bit matrices.
fn inverse_small<const N: usize>(s: &mut impl Src) -> R {
    let mut a = vec![];
    for _ in 0..N * N {
        a.push(el::<BinaryField1b>(s));
    }
    let m = Matrix::new(N, N, &a).unwrap();
    let mut inv = Matrix::zeros(N, N);
    let ok = m.inverse_into(&mut inv).is_ok();
    if ok {
        for i in 0..N {
            for j in 0..N {
                let mut e = BinaryField1b::ZERO;
                for k in 0..N {
                    e += a[i * N + k] * inv[(k, j)];
                }
                ensures!(e == if i == j { BinaryField1b::ONE } else { BinaryField1b::ZERO }, "a matrix times its inverse is the identity");
            }
        }
    } else {
        // some nonzero combination of the rows vanishes
        let mut dep = false;
        for mask in 1..1usize << N {
            let mut zero = true;
            for j in 0..N {
                let mut e = BinaryField1b::ZERO;
                for i in 0..N {
                    if mask >> i & 1 == 1 {
                        e += a[i * N + j];
                    }
                }
                zero &= e == BinaryField1b::ZERO;
            }
            dep |= zero;
        }
        ensures!(dep, "only singular matrices are reported as singular");
    }
    Ok(())
}

#[cfg(not(kani))]
pub use nat::register;
#[cfg(not(kani))]
mod nat {
    use super::*;
    use std::collections::HashSet;

    fn distinct<F: Fx>(s: &mut NSrc, n: usize) -> Vec<F> {
        let mut v: Vec<F> = vec![];
        let mut next = 0u128;
        while v.len() < n {
            let mut x: F = el(s);
            while v.contains(&x) {
                x = F::of(next & if F::NB == 128 { !0 } else { (1 << F::NB) - 1 });
                next += 1;
            }
            v.push(x);
        }
        v
    }
    fn domains<F, FE, PE>(s: &mut NSrc) -> R
    where
        F: Fx,
        FE: Fx + ExtensionField<F>,
        PE: PackedField<Scalar = FE> + PackedExtension<F>,
    {
        let max = if F::NB < 4 { 1 << F::NB } else { 9 };
        let n = s.below(max + 1);
        let inf = s.bool();
        let pts: Vec<F> = distinct(s, n);
        let dom = EvaluationDomain::from_points(pts.clone(), inf);
        ensures!(dom.is_ok(), "distinct points form a domain");
        let dom = dom.unwrap();
        let size = n + inf as usize;
        ensures!(dom.size() == size && dom.finite_points() == &pts[..] && dom.with_infinity() == inf, "a domain keeps its points");
        if n > 0 {
            let mut dup = pts.clone();
            dup.insert(s.below(n + 1), pts[s.below(n)]);
            ensures!(EvaluationDomain::from_points(dup, inf).is_err(), "duplicate points are rejected");
        }
        // a polynomial of degree below the size, per lane
        let cs: Vec<Vec<FE>> = (0..PE::WIDTH).map(|_| els(s, size)).collect();
        let val = |x: FE, l: usize| poly(&cs[l], x);
        let mut values: Vec<PE> = pts.iter().map(|&p| PE::from_fn(|l| val(p.into(), l))).collect();
        if inf {
            values.push(PE::from_fn(|l| cs[l][size - 1]));
        }
        let x: FE = match s.below(4) {
            0 if n > 0 => pts[s.below(n)].into(),
            1 => FE::from(el::<F>(s)),
            _ => el(s),
        };
        let lag = dom.lagrange_evals(x);
        for i in 0..n {
            let mut e = FE::ONE;
            for j in 0..n {
                if j != i {
                    e *= (x - FE::from(pts[j])) * FE::from((pts[i] - pts[j]).invert_or_zero());
                }
            }
            ensures!(lag.len() == n && lag[i] == e, "Lagrange basis polynomials", "point {i} of {n}");
        }
        let want = PE::from_fn(|l| val(x, l));
        let got = dom.extrapolate(&values, x);
        ensures!(got.is_ok() && got.unwrap() == want, "extrapolation evaluates the unique polynomial through the points", "{n} points, infinity {inf}");
        let mut long = values.clone();
        long.push(PE::one());
        ensures!(dom.extrapolate(&long, x).is_err() && (size == 0 || dom.extrapolate(&values[1..], x).is_err()), "another number of values is rejected");
        let idom = InterpolationDomain::from(dom);
        ensures!(idom.size() == size && idom.finite_points() == &pts[..] && idom.with_infinity() == inf, "an interpolation domain keeps its points");
        ensures!(idom.extrapolate(&values, x).unwrap() == want, "an interpolation domain extrapolates alike");
        for (l, c) in cs.iter().enumerate() {
            let v: Vec<FE> = values.iter().map(|p| p.get(l)).collect();
            let got = idom.interpolate(&v);
            ensures!(got.is_ok() && got.unwrap() == *c, "interpolation recovers the coefficients", "{n} points, infinity {inf}");
            ensures!(evaluate_univariate(c, x) == val(x, l), "a univariate polynomial by its coefficients");
            if l > 3 {
                break;
            }
        }
        ensures!(idom.interpolate::<FE>(&vec![FE::ONE; size + 1]).is_err(), "interpolating another number of values is rejected");
        Ok(())
    }
    fn factories<F: Fx + BinaryField, G: Fx + BinaryField + From<F>>(s: &mut NSrc) -> R {
        let size = s.below(if F::NB <= 8 { (1 << F::NB) + 4 } else { 20 });
        let d = DefaultEvaluationDomainFactory::<F>::default().create(size);
        let i: Result<EvaluationDomain<G>, _> = IsomorphicEvaluationDomainFactory::<F>::default().create(size);
        let inf = size >= 3;
        let n = size - inf as usize;
        let ok = F::NB >= 64 || n <= 1 << F::NB;
        ensures!(d.is_ok() == ok && i.is_ok() == ok, "domains up to the field size exist");
        if ok {
            let (d, i) = (d.unwrap(), i.unwrap());
            let e: Vec<F> = (0..n).map(|k| BinarySubspace::<F>::default().get(k)).collect();
            ensures!(d.size() == size && d.with_infinity() == inf && d.finite_points() == &e[..], "the default domain is the prefix of the field and infinity", "{size}");
            ensures!(i.size() == size && i.with_infinity() == inf && i.finite_points().iter().zip(&e).all(|(a, b)| *a == G::from(*b)), "the isomorphic domain is its image");
        }
        Ok(())
    }
    fn matrices<F: Fx, FE: Fx + ExtensionField<F>>(s: &mut NSrc) -> R {
        let (m, k, n) = (s.below(6), s.below(6), s.below(6));
        let rnd = |s: &mut NSrc, n: usize| -> Vec<F> { (0..n).map(|_| match s.below(4) { 0 => F::ZERO, 1 => F::ONE, _ => el(s) }).collect() };
        let (a, b) = (rnd(s, m * k), rnd(s, k * n));
        let (ma, mb) = (Matrix::new(m, k, &a).unwrap(), Matrix::new(k, n, &b).unwrap());
        ensures!(Matrix::new(m, k + 1, &a).is_ok() == (m == 0) && ma.elements() == &a[..] && ma.dim() == (m, k) && (ma.m(), ma.n()) == (m, k), "matrices keep their shape");
        let mut c = Matrix::zeros(m, n);
        Matrix::mul_into(&ma, &mb, &mut c);
        for i in 0..m {
            for j in 0..n {
                let mut e = F::ZERO;
                for t in 0..k {
                    e += a[i * k + t] * b[t * n + j];
                }
                ensures!(c[(i, j)] == e, "a matrix product");
            }
        }
        ensures!(catches(|| { let mut d = Matrix::<F>::zeros(m + 1, n); Matrix::mul_into(&ma, &mb, &mut d); }).is_none(), "a product of mismatched shapes is refused");
        ensures!(catches(|| ma[(0, k)]).is_none() && catches(|| ma[(m, 0)]).is_none(), "entries out of range are refused");
        let x: Vec<FE> = els(s, k);
        let mut y = vec![FE::ONE; m];
        ma.mul_vec_into(&x, &mut y);
        for i in 0..m {
            let mut e = FE::ZERO;
            for t in 0..k {
                e += x[t] * FE::from(a[i * k + t]);
            }
            ensures!(y[i] == e, "a matrix-vector product");
        }
        let b2 = rnd(s, m * k);
        let mb2 = Matrix::new(m, k, &b2).unwrap();
        let (sum, dif) = (&ma + &mb2, &ma - &mb2);
        ensures!((0..m * k).all(|i| sum.elements()[i] == a[i] + b2[i] && dif.elements()[i] == a[i] - b2[i]), "sums and differences of matrices");
        let mut cp = Matrix::zeros(m, k);
        cp.copy_from(&ma);
        ensures!(cp == ma, "copies of matrices");
        if m != k {
            let mut o = Matrix::zeros(m, k);
            ensures!(ma.inverse_into(&mut o).is_err(), "a matrix that is not square is reported");
        }
        // inverses, singular matrices included; half of the time the rank is deficient by construction
        let mut q = rnd(s, n * n);
        let deficient = n > 0 && s.below(3) == 0;
        if deficient {
            let r = s.below(n);
            let w: Vec<F> = (0..n).map(|i| if i == r { F::ZERO } else { el(s) }).collect();
            for j in 0..n {
                let mut e = F::ZERO;
                for i in 0..n {
                    e += w[i] * q[i * n + j];
                }
                q[r * n + j] = if r < n { (0..n).filter(|&i| i != r).map(|i| w[i] * q[i * n + j]).sum() } else { e };
            }
        }
        let mq = Matrix::new(n, n, &q).unwrap();
        let mut inv = Matrix::new(n, n, &rnd(s, n * n)).unwrap();
        let r = mq.inverse_into(&mut inv);
        // the rank, by elimination
        let mut t: Vec<Vec<F>> = q.chunks(n.max(1)).map(|r| r.to_vec()).collect();
        let mut rank = 0;
        for col in 0..n {
            if let Some(p) = (rank..n).find(|&i| t[i][col] != F::ZERO) {
                t.swap(rank, p);
                let iv = t[rank][col].invert_or_zero();
                for i in rank + 1..n {
                    let f = t[i][col] * iv;
                    for j in 0..n {
                        let x = t[rank][j];
                        t[i][j] -= f * x;
                    }
                }
                rank += 1;
            }
        }
        ensures!(!deficient || rank < n, "the reference rank");
        ensures!(r.is_ok() == (rank == n), "exactly the singular matrices are reported as singular", "{n}x{n} rank {rank}");
        if r.is_ok() {
            let mut p = Matrix::zeros(n, n);
            Matrix::mul_into(&mq, &inv, &mut p);
            let mut p2 = Matrix::zeros(n, n);
            Matrix::mul_into(&inv, &mq, &mut p2);
            let id = Matrix::identity(n);
            ensures!((0..n * n).all(|i| id.elements()[i] == if i / n == i % n { F::ONE } else { F::ZERO }), "the identity matrix");
            ensures!(p == id && p2 == id, "a matrix times its inverse is the identity");
        }
        Ok(())
    }
    fn subspaces<F: Fx + BinaryField, G: Fx + BinaryField + From<F>>(s: &mut NSrc) -> R {
        let deg = F::NB as usize;
        let dim = s.below((deg + 1).min(9));
        let mut sub = BinarySubspace::<F>::with_dim(dim).unwrap();
        let e: Vec<F> = (0..dim).map(|i| <F as ExtensionField<BinaryField1b>>::basis(i)).collect();
        ensures!(sub.basis() == &e[..] && sub.dim() == dim, "the default basis");
        ensures!(BinarySubspace::<F>::with_dim(deg + 1 + s.below(3)).is_err() && BinarySubspace::<F>::with_dim(deg).is_ok(), "dimensions up to the field's degree exist");
        if s.bool() {
            // an independent basis
            let mut basis: Vec<F> = vec![];
            let mut span: HashSet<u128> = [0].into();
            for i in 0..dim {
                let mut x = el::<F>(s).raw();
                if span.contains(&x) {
                    x = (0..deg).map(|b| 1u128 << b).find(|x| !span.contains(x)).unwrap();
                }
                let more: Vec<u128> = span.iter().map(|y| y ^ x).collect();
                span.extend(more);
                basis.push(F::of(x));
                let _ = i;
            }
            sub = BinarySubspace::new_unchecked(basis);
        }
        let b = sub.basis().to_vec();
        let at = |i: usize| b.iter().enumerate().filter(|(k, _)| i >> k & 1 == 1).map(|(_, &x)| x).sum::<F>();
        let all: Vec<F> = sub.iter().collect();
        ensures!(all.len() == 1 << dim && all.iter().enumerate().all(|(i, &x)| x == at(i)), "a subspace enumerates the combinations of its basis in binary order");
        ensures!(all.iter().map(|x| x.raw()).collect::<HashSet<_>>().len() == 1 << dim, "an independent basis spans distinct elements");
        let i = s.below((1 << dim) + 2);
        match sub.get_checked(i) {
            Ok(x) => ensures!(i < 1 << dim && x == at(i), "checked subspace access"),
            Err(_) => ensures!(i >= 1 << dim, "checked subspace access covers the subspace"),
        }
        let k = s.below((1 << dim) + 3);
        ensures!(sub.iter().nth(k) == if k < 1 << dim { Some(at(k)) } else { None } && sub.iter().skip(k).count() == (1usize << dim).saturating_sub(k), "skipping within a subspace");
        let d = s.below(dim + 3);
        match sub.reduce_dim(d) {
            Ok(r) => ensures!(d <= dim && r.basis() == &b[..d], "a reduced subspace keeps the prefix of the basis"),
            Err(_) => ensures!(d > dim, "smaller dimensions exist"),
        }
        let iso: BinarySubspace<G> = sub.isomorphic();
        ensures!(iso.dim() == dim && iso.basis().iter().zip(&b).all(|(x, y)| *x == G::from(*y)), "the isomorphic subspace is the image of the basis");
        // the whole field
        let full = BinarySubspace::<F>::default();
        let i = s.word(64) as usize;
        let masked = if deg >= 64 { i } else { i & ((1 << deg) - 1) };
        let e: F = (0..deg.min(64)).filter(|k| i >> k & 1 == 1).map(|k| <F as ExtensionField<BinaryField1b>>::basis(k)).sum();
        ensures!(full.dim() == deg && full.get(masked) == e, "the default subspace is the field");
        let c = catches(|| full.get_checked(masked).ok());
        ensures!(c == Some(Some(e)), "every index of the whole field is accepted", "index {masked:x} gave {c:?}");
        Ok(())
    }
    pub fn register(r: &mut Runner) {
        macro_rules! dm { ($($name:literal $f:ty, $fe:ty, $pe:ty;)*) => {$(
            r.sampled(concat!("domains_", $name), "EvaluationDomain::{from_points,lagrange_evals,extrapolate}, InterpolationDomain, evaluate_univariate, vandermonde", 2000, |s| domains::<$f, $fe, $pe>(s));
        )*}}
        dm! {
            "b1_b8" BinaryField1b, BinaryField8b, PackedBinaryField16x8b;
            "b2_b4" BinaryField2b, BinaryField4b, PackedBinaryField32x4b;
            "b8_b8" BinaryField8b, BinaryField8b, PackedBinaryField16x8b;
            "b8_b128" BinaryField8b, BinaryField128b, PackedBinaryField2x128b;
            "b32_b128" BinaryField32b, BinaryField128b, PackedBinaryField1x128b;
            "b128_b128" BinaryField128b, BinaryField128b, PackedBinaryField4x128b;
            "aes8_aes128" AESTowerField8b, AESTowerField128b, PackedAESBinaryField2x128b;
            "aes16_aes32" AESTowerField16b, AESTowerField32b, PackedAESBinaryField4x32b;
            "polyval" BinaryField128bPolyval, BinaryField128bPolyval, PackedBinaryPolyval1x128b;
        }
        r.sampled("factories_b8", "DefaultEvaluationDomainFactory, IsomorphicEvaluationDomainFactory", 1000, |s| factories::<BinaryField8b, AESTowerField8b>(s));
        r.sampled("factories_b4", "DefaultEvaluationDomainFactory, IsomorphicEvaluationDomainFactory", 1000, |s| factories::<BinaryField4b, BinaryField4b>(s));
        r.sampled("factories_b128", "DefaultEvaluationDomainFactory, IsomorphicEvaluationDomainFactory", 1000, |s| factories::<BinaryField128b, BinaryField128bPolyval>(s));
        r.sampled("matrices_b1", "Matrix", 5000, |s| matrices::<BinaryField1b, BinaryField8b>(s));
        r.sampled("matrices_b2", "Matrix", 5000, |s| matrices::<BinaryField2b, BinaryField2b>(s));
        r.sampled("matrices_b8", "Matrix", 5000, |s| matrices::<BinaryField8b, BinaryField32b>(s));
        r.sampled("matrices_aes32", "Matrix", 5000, |s| matrices::<AESTowerField32b, AESTowerField128b>(s));
        r.sampled("matrices_b128", "Matrix", 2000, |s| matrices::<BinaryField128b, BinaryField128b>(s));
        r.sampled("subspaces_b4", "BinarySubspace", 5000, |s| subspaces::<BinaryField4b, BinaryField4b>(s));
        r.sampled("subspaces_b8", "BinarySubspace", 5000, |s| subspaces::<BinaryField8b, AESTowerField8b>(s));
        r.sampled("subspaces_b32", "BinarySubspace", 5000, |s| subspaces::<BinaryField32b, AESTowerField32b>(s));
        r.sampled("subspaces_b64", "BinarySubspace", 5000, |s| subspaces::<BinaryField64b, AESTowerField64b>(s));
        r.sampled("subspaces_b128", "BinarySubspace", 5000, |s| subspaces::<BinaryField128b, BinaryField128bPolyval>(s));
        macro_rules! ln { ($($p:ident $f:ident;)*) => {$( r.sampled(concat!("lines_", stringify!($p)), "extrapolate_line, extrapolate_lines, extrapolate_line_scalar", 5000, |s| line::<$p, $f>(s)); )*}}
        ln! { PackedBinaryField16x8b BinaryField8b; PackedBinaryField2x128b BinaryField128b; PackedAESBinaryField8x32b AESTowerField32b; PackedBinaryPolyval2x128b BinaryField128bPolyval; ByteSlicedAES16x64b AESTowerField64b; }
        super::obligations(r);
    }
}

obligations! {
    line_scalar, quick, 8, "complete: all of GF(256)", "extrapolate_line_scalar, extrapolate_line, extrapolate_lines", line::<PackedBinaryField1x8b, BinaryField8b>;
    univariate_2, quick, 8, "bounded: 2 coefficients over GF(256)", "evaluate_univariate", horner::<2>;
    subspace_3, quick, 8, "bounded: dimension 3 over GF(256), all bases and indices", "BinarySubspace::{get,get_checked}", subspace_small::<3>;
    matrix_vector_2x3, quick, 10, "bounded: all 2x3 bit matrices and vectors over GF(256)", "Matrix::mul_vec_into", matvec::<2, 3>;
    inverse_2x2, quick, 10, "bounded: all 2x2 bit matrices", "Matrix::inverse_into", inverse_small::<2>;
}
