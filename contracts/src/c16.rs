//! C16: transparent polynomials.
use crate::rt::*;
use crate::spec::*;
use crate::{ensures, obligations};
use binius_core::oracle::ShiftVariant;
use binius_core::polynomial::MultivariatePoly;
use binius_core::transparent::{
    constant::Constant, disjoint_product::DisjointProduct, eq_ind::EqIndPartialEval, powers::Powers, select_row::SelectRow,
    shift_ind::ShiftIndPartialEval, step_down::StepDown, step_up::StepUp, tower_basis::TowerBasis,
};
use binius_field::*;

/// Equality indicator of a point at vertex i (low bit = first variable).
fn eq<F: Field>(point: &[F], i: usize) -> F {
    let mut p = F::ONE;
    for (b, &r) in point.iter().enumerate() {
        p *= if i >> b & 1 == 1 { r } else { F::ONE - r };
    }
    p
}
fn bit<F: Field>(b: bool) -> F {
    if b { F::ONE } else { F::ZERO }
}
/// The polynomial's value is the multilinear extension of the definition `at`.
fn agrees<F: Field>(p: &impl MultivariatePoly<F>, n: usize, point: &[F], at: impl Fn(usize) -> F) -> R {
    let mut e = F::ZERO;
    for i in 0..1 << n {
        e += eq(point, i) * at(i);
    }
    let v = p.evaluate(point);
    ensures!(p.n_vars() == n, "the number of variables");
    ensures!(matches!(v, Ok(x) if x == e), "the value at a point is the multilinear extension of the hypercube definition", "n={n} {v:?} {e:?}");
    Ok(())
}
/// All indices and all points of a small field for a fixed number of variables.
fn steps<F: Fx, const N: usize, const KIND: usize>(s: &mut impl Src) -> R {
    let index = s.below((1 << N) + 2);
    let pt: [F; N] = std::array::from_fn(|_| el(s));
    match KIND {
        0 => match StepDown::new(N, index) {
            Ok(p) => {
                ensures!(index <= 1 << N, "an index beyond the hypercube is rejected");
                agrees(&p, N, &pt, |i| bit(i < index))?
            }
            Err(_) => ensures!(index > 1 << N, "an index within the hypercube is accepted"),
        },
        1 => match StepUp::new(N, index) {
            Ok(p) => {
                ensures!(index <= 1 << N, "an index beyond the hypercube is rejected");
                agrees(&p, N, &pt, |i| bit(i >= index))?
            }
            Err(_) => ensures!(index > 1 << N, "an index within the hypercube is accepted"),
        },
        _ => match SelectRow::new(N, index) {
            Ok(p) => {
                ensures!(index < 1 << N, "an index beyond the hypercube is rejected");
                agrees(&p, N, &pt, |i| bit(i == index))?
            }
            Err(_) => ensures!(index >= 1 << N, "an index within the hypercube is accepted"),
        },
    }
    Ok(())
}
/// Does the shift indicator hold between output position x and input position y?
fn shifted(v: &ShiftVariant, b: usize, o: usize, x: usize, y: usize) -> bool {
    match v {
        ShiftVariant::CircularLeft => (x + o) % (1 << b) == y,
        ShiftVariant::LogicalLeft => x + o == y,
        ShiftVariant::LogicalRight => y + o == x,
    }
}
fn shift<F: Fx + TowerField, const N: usize, const V: usize, const O: usize>(s: &mut impl Src) -> R {
    let v = [ShiftVariant::CircularLeft, ShiftVariant::LogicalLeft, ShiftVariant::LogicalRight][V];
    // any offset, or a fixed one
    let o = if O == 0 { s.below((1 << N) + 1) } else { O };
    let r: [F; N] = std::array::from_fn(|_| el(s));
    let pt: [F; N] = std::array::from_fn(|_| el(s));
    match ShiftIndPartialEval::new(N, o, v, r.to_vec()) {
        Ok(p) => {
            ensures!(o > 0 && o < 1 << N, "offsets outside of the block are rejected");
            agrees(&p, N, &pt, |x| {
                let mut e = F::ZERO;
                for y in 0..1 << N {
                    if shifted(&v, N, o, x, y) {
                        e += eq(&r, y);
                    }
                }
                e
            })?
        }
        Err(_) => ensures!(o == 0 || o >= 1 << N, "offsets within the block are accepted"),
    }
    Ok(())
}
fn eq_ind<F: Fx + TowerField, const N: usize>(s: &mut impl Src) -> R {
    let r: [F; N] = std::array::from_fn(|_| el(s));
    let pt: [F; N] = std::array::from_fn(|_| el(s));
    agrees(&EqIndPartialEval::new(r.to_vec()), N, &pt, |i| eq(&r, i))
}
fn pow<F: Field>(g: F, n: usize) -> F {
    let mut p = F::ONE;
    for _ in 0..n {
        p *= g;
    }
    p
}
fn powers<F: Fx + TowerField, const N: usize>(s: &mut impl Src) -> R {
    let g: F = el(s);
    let pt: [F; N] = std::array::from_fn(|_| el(s));
    agrees::<F>(&Powers::new(N, g), N, &pt, |i| pow(g, i))
}
fn disjoint<F: Fx + TowerField>(s: &mut impl Src) -> R {
    let (a, b) = (s.below(3), s.below(2));
    let pt: [F; 2] = std::array::from_fn(|_| el(s));
    let p = DisjointProduct(StepDown::new(1, a).unwrap(), SelectRow::new(1, b).unwrap());
    agrees(&p, 2, &pt, |i| bit::<F>(i % 2 < a && i / 2 == b))
}

#[cfg(not(kani))]
pub mod native {
    use super::*;
    use binius_core::transparent::MultilinearExtensionTransparent;
    use binius_hal::make_portable_backend;
    use binius_math::MultilinearExtension;
    use std::ops::Deref;

    /// The materialised table holds the hypercube values.
    fn table<P: PackedField, D: Deref<Target = [P]>>(m: &MultilinearExtension<P, D>, n: usize, at: impl Fn(usize) -> P::Scalar) -> R {
        ensures!(m.n_vars() == n, "the table's number of variables", "{} {n}", m.n_vars());
        for i in 0..1 << n {
            let v = m.evaluate_on_hypercube(i);
            ensures!(matches!(&v, Ok(x) if *x == at(i)), "the materialised table holds the hypercube values", "n={n} i={i} {v:?} {:?}", at(i));
        }
        Ok(())
    }
    /// Points of other lengths are reported.
    fn sizes<F: Field>(p: &impl MultivariatePoly<F>, n: usize) -> R {
        for k in [n.wrapping_sub(1), n + 1, n + 3] {
            if k < 100 && k != n {
                let q = vec![F::ONE; k];
                let r = catches(|| p.evaluate(&q).is_err());
                ensures!(r == Some(true), "a point of another length is an error", "n={n} k={k} {r:?}");
            }
        }
        Ok(())
    }
    fn points<F: Fx>(s: &mut NSrc, n: usize) -> Vec<F> {
        match s.below(4) {
            0 => (0..n).map(|_| bit(s.bool())).collect(),
            _ => els(s, n),
        }
    }
    fn step_any<F: Fx, P: PackedField, P1: PackedField<Scalar = BinaryField1b>>(s: &mut NSrc) -> R {
        let n = s.below(10);
        let m = 1usize << n;
        let index = match s.below(5) {
            0 => 0,
            1 => m,
            2 => m + 1 + s.below(3),
            _ => s.below(m + 1),
        };
        let pt = points::<F>(s, n);
        match (StepDown::new(n, index), StepUp::new(n, index)) {
            (Ok(d), Ok(u)) => {
                ensures!(index <= m, "an index beyond the hypercube is rejected");
                agrees(&d, n, &pt, |i| bit(i < index))?;
                agrees(&u, n, &pt, |i| bit(i >= index))?;
                sizes::<F>(&d, n)?;
                sizes::<F>(&u, n)?;
                ensures!(d.index() == index && d.n_vars() == n && u.n_vars() == n, "parameters");
                table::<P, _>(&d.multilinear_extension().unwrap(), n, |i| bit(i < index))?;
                table::<P, _>(&u.multilinear_extension().unwrap(), n, |i| bit(i >= index))?;
                table::<P1, _>(&d.multilinear_extension().unwrap(), n, |i| bit(i < index))?;
                table::<P1, _>(&u.multilinear_extension().unwrap(), n, |i| bit(i >= index))?;
                // populating a used buffer
                let mut b = vec![P1::from_fn(|_| bit(s.bool())); (m >> P1::LOG_WIDTH).max(1)];
                d.populate(&mut b);
                table::<P1, _>(&MultilinearExtension::new(n, b.as_slice()).unwrap(), n, |i| bit(i < index))?;
                let mut b = vec![P1::from_fn(|_| bit(s.bool())); (m >> P1::LOG_WIDTH).max(1)];
                u.populate(&mut b);
                table::<P1, _>(&MultilinearExtension::new(n, b.as_slice()).unwrap(), n, |i| bit(i >= index))?;
            }
            (Err(_), Err(_)) => ensures!(index > m, "an index within the hypercube is accepted"),
            _ => ensures!(false, "both steps accept the same indices"),
        }
        match SelectRow::new(n, index) {
            Ok(p) => {
                ensures!(index < m, "an index beyond the hypercube is rejected");
                agrees(&p, n, &pt, |i| bit(i == index))?;
                sizes::<F>(&p, n)?;
                match p.multilinear_extension::<P1>() {
                    Ok(t) => table::<P1, _>(&t, n, |i| bit(i == index))?,
                    Err(_) => ensures!(n < P1::LOG_WIDTH, "a table of full packed elements is produced"),
                }
            }
            Err(_) => ensures!(index >= m, "an index within the hypercube is accepted"),
        }
        Ok(())
    }
    fn shift_any<F: Fx + TowerField, P: PackedField<Scalar = F>>(s: &mut NSrc) -> R {
        let n = s.below(7);
        let m = 1usize << n;
        let o = match s.below(5) {
            0 => 0,
            1 => m + s.below(2),
            2 => m - 1,
            _ => s.below(m),
        };
        let r = points::<F>(s, n);
        let pt = points::<F>(s, n);
        for v in [ShiftVariant::CircularLeft, ShiftVariant::LogicalLeft, ShiftVariant::LogicalRight] {
            match ShiftIndPartialEval::new(n, o, v, r.clone()) {
                Ok(p) => {
                    ensures!(o > 0 && o < m, "offsets outside of the block are rejected");
                    let e: Vec<F> = (0..m).map(|x| (0..m).filter(|&y| shifted(&v, n, o, x, y)).map(|y| eq(&r, y)).sum()).collect();
                    agrees(&p, n, &pt, |x| e[x])?;
                    sizes::<F>(&p, n)?;
                    table::<P, _>(&p.multilinear_extension().unwrap(), n, |x| e[x])?;
                }
                Err(_) => ensures!(o == 0 || o >= m, "offsets within the block are accepted"),
            }
            ensures!(ShiftIndPartialEval::new(n + 1, 1, v, r.clone()).is_err() && (n == 0 || ShiftIndPartialEval::new(n - 1, 1, v, r.clone()).is_err()), "a partial point of another length is rejected");
        }
        Ok(())
    }
    fn simple<F: Fx + TowerField + ExtensionField<FS>, FS: Fx + TowerField, P: PackedField<Scalar = F>>(s: &mut NSrc) -> R {
        let n = s.below(9);
        let pt = points::<F>(s, n);
        let c: FS = el(s);
        let p = Constant::<F>::new(n, c);
        agrees(&p, n, &pt, |_| F::from(c))?;
        sizes::<F>(&p, n)?;
        ensures!(p.binary_tower_level() == FS::TOWER_LEVEL && p.degree() == 0, "parameters of a constant");
        let r = points::<F>(s, n);
        let p = EqIndPartialEval::new(r.clone());
        let rs: Vec<F> = (0..1 << n).map(|i| eq(&r, i)).collect();
        agrees::<F>(&p, n, &pt, |i| rs[i])?;
        sizes::<F>(&p, n)?;
        table::<P, _>(&p.multilinear_extension(&make_portable_backend()).unwrap(), n, |i| rs[i])?;
        // at several points at once
        let cols: Vec<P> = (0..n).map(|_| P::from_fn(|_| el(s))).collect();
        let v = MultivariatePoly::<P>::evaluate(&p, &cols).unwrap();
        for l in 0..P::WIDTH {
            let q: Vec<F> = cols.iter().map(|c| c.get(l)).collect();
            ensures!(v.get(l) == (0..n).map(|k| q[k] * r[k] + (F::ONE - q[k]) * (F::ONE - r[k])).product::<F>(), "the equality indicator in every lane");
        }
        let g: F = el(s);
        let p = Powers::new(n, g);
        let gs: Vec<F> = std::iter::successors(Some(F::ONE), |&x| Some(x * g)).take(1 << n).collect();
        agrees::<F>(&p, n, &pt, |i| gs[i])?;
        sizes::<F>(&p, n)?;
        table::<P, _>(&p.multilinear_extension().unwrap(), n, |i| gs[i])?;
        let v = MultivariatePoly::<P>::evaluate(&p, &cols).unwrap();
        for l in 0..P::WIDTH {
            let q: Vec<F> = cols.iter().map(|c| c.get(l)).collect();
            ensures!(Ok(v.get(l)) == p.evaluate(&q).map_err(|_| ()), "the powers in every lane");
        }
        // tower bases
        let (k, iota) = (s.below(F::TOWER_LEVEL + 2), s.below(F::TOWER_LEVEL + 2));
        let pt = points::<F>(s, k);
        match TowerBasis::<F>::new(k, iota) {
            Ok(p) => {
                ensures!(k + iota <= F::TOWER_LEVEL, "bases beyond the field are rejected");
                // product of the generators X_iota.. selected by the bits
                let at = |i: usize| (0..k).filter(|b| i >> b & 1 == 1).map(|b| <F as TowerField>::basis(iota + b, 1).unwrap()).product::<F>();
                for b in 0..k {
                    // X_j is the element 2^(2^j) of the raw representation for tower fields
                    let x = <F as TowerField>::basis(iota + b, 1).unwrap();
                    ensures!(x == <F as ExtensionField<BinaryField1b>>::basis(1 << (iota + b)), "the generators of the tower");
                }
                agrees(&p, k, &pt, at)?;
                sizes::<F>(&p, k)?;
                ensures!(p.binary_tower_level() == iota + k, "the level of a tower basis");
                match p.multilinear_extension::<P>() {
                    Ok(t) => table::<P, _>(&t, k, at)?,
                    Err(_) => ensures!(k < P::LOG_WIDTH, "a table of full packed elements is produced"),
                }
            }
            Err(_) => ensures!(k + iota > F::TOWER_LEVEL, "bases within the field are accepted"),
        }
        // a product over disjoint variables
        let (n0, n1) = (s.below(4), s.below(4));
        let a = s.below((1 << n0) + 1);
        let g: F = el(s);
        let p = DisjointProduct(StepUp::new(n0, a).unwrap(), Powers::new(n1, g));
        let pt = points::<F>(s, n0 + n1);
        agrees::<F>(&p, n0 + n1, &pt, |i| bit::<F>(i % (1 << n0) >= a) * pow(g, i >> n0))?;
        sizes::<F>(&p, n0 + n1)?;
        Ok(())
    }
    /// Larger tables of powers: every chunk starts where the previous one ended.
    fn powers_large<P: PackedField<Scalar: TowerField + Fx>>(s: &mut NSrc) -> R {
        let n = 9 + P::LOG_WIDTH + s.below(3);
        let g: P::Scalar = el(s);
        let m = Powers::new(n, g).multilinear_extension::<P>().unwrap();
        let mut e = P::Scalar::ONE;
        for i in 0..1 << n {
            let v = m.evaluate_on_hypercube(i).unwrap();
            ensures!(v == e, "the materialised table of powers", "n={n} i={i}");
            e *= g;
        }
        Ok(())
    }
    fn mle<P: PackedField<Scalar: Fx>, PE: PackedField<Scalar: Fx + TowerField + ExtensionField<P::Scalar>> + RepackedExtension<P>>(s: &mut NSrc) -> R {
        let n = s.below(9);
        let v: Vec<P::Scalar> = els(s, 1 << n);
        let mut d = vec![P::zero(); v.len().div_ceil(P::WIDTH)];
        for (i, &x) in v.iter().enumerate() {
            d[i / P::WIDTH].set(i % P::WIDTH, x);
        }
        let p = if n >= P::LOG_WIDTH && s.bool() {
            MultilinearExtensionTransparent::<P, PE>::from_values(d.clone())
        } else {
            MultilinearExtensionTransparent::<P, PE>::from_values_and_mu(d.clone(), n)
        }
        .unwrap();
        let pt = points::<PE::Scalar>(s, n);
        agrees::<PE::Scalar>(&p, n, &pt, |i| PE::Scalar::from(v[i]))?;
        sizes::<PE::Scalar>(&p, n)?;
        if d.len() > 1 {
            ensures!(MultilinearExtensionTransparent::<P, PE>::from_values(d[1..].to_vec()).is_err() || (d.len() - 1).is_power_of_two(), "lengths that are not a power of two are rejected");
        }
        ensures!(MultilinearExtensionTransparent::<P, PE>::from_values_and_mu(d, n.max(P::LOG_WIDTH) + 1).is_err(), "a wrong number of variables is rejected");
        Ok(())
    }
    pub fn register(r: &mut Runner) {
        macro_rules! st { ($($name:literal $f:ty, $p:ty, $p1:ty;)*) => {$(
            r.sampled(concat!("steps_", $name), "StepDown, StepUp, SelectRow: new, evaluate, multilinear_extension, populate", 3000, |s| step_any::<$f, $p, $p1>(s));
        )*}}
        st! {
            "b8" BinaryField8b, PackedBinaryField16x8b, PackedBinaryField8x1b;
            "b128" BinaryField128b, PackedBinaryField2x128b, PackedBinaryField128x1b;
            "b32" BinaryField32b, PackedBinaryField8x32b, PackedBinaryField256x1b;
            "aes16" AESTowerField16b, PackedAESBinaryField16x16b, PackedBinaryField512x1b;
            "polyval" BinaryField128bPolyval, PackedBinaryPolyval4x128b, PackedBinaryField1x1b;
            "byte_sliced" AESTowerField8b, ByteSlicedAES32x8b, PackedBinaryField4x1b;
        }
        macro_rules! sh { ($($name:literal $f:ty, $p:ty;)*) => {$(
            r.sampled(concat!("shift_", $name), "ShiftIndPartialEval: new, evaluate, multilinear_extension", 2000, |s| shift_any::<$f, $p>(s));
        )*}}
        sh! {
            "b8" BinaryField8b, PackedBinaryField16x8b;
            "b128" BinaryField128b, PackedBinaryField2x128b;
            "b128_wide" BinaryField128b, PackedBinaryField4x128b;
            "b128_1" BinaryField128b, PackedBinaryField1x128b;
            "b32" BinaryField32b, PackedBinaryField8x32b;
            "aes16" AESTowerField16b, PackedAESBinaryField16x16b;
            "b1" BinaryField1b, PackedBinaryField64x1b;
        }
        macro_rules! si { ($($name:literal $f:ty, $fs:ty, $p:ty;)*) => {$(
            r.sampled(concat!("simple_", $name), "Constant, EqIndPartialEval, Powers, TowerBasis, DisjointProduct", 2000, |s| simple::<$f, $fs, $p>(s));
        )*}}
        si! {
            "b8" BinaryField8b, BinaryField2b, PackedBinaryField16x8b;
            "b128" BinaryField128b, BinaryField32b, PackedBinaryField2x128b;
            "b128_1" BinaryField128b, BinaryField1b, PackedBinaryField1x128b;
            "b32" BinaryField32b, BinaryField8b, PackedBinaryField8x32b;
            "b64" BinaryField64b, BinaryField64b, PackedBinaryField4x64b;
            "b16" BinaryField16b, BinaryField4b, PackedBinaryField8x16b;
        }
        r.sampled("powers_large_b128x2", "Powers::multilinear_extension", 8, |s| powers_large::<PackedBinaryField2x128b>(s));
        r.sampled("powers_large_b128x4", "Powers::multilinear_extension", 8, |s| powers_large::<PackedBinaryField4x128b>(s));
        r.sampled("powers_large_b128x1", "Powers::multilinear_extension", 8, |s| powers_large::<PackedBinaryField1x128b>(s));
        r.sampled("powers_large_b8", "Powers::multilinear_extension", 8, |s| powers_large::<PackedBinaryField16x8b>(s));
        r.sampled("mle_b1_b128", "MultilinearExtensionTransparent", 1000, |s| mle::<PackedBinaryField128x1b, PackedBinaryField1x128b>(s));
        r.sampled("mle_b8_b128", "MultilinearExtensionTransparent", 1000, |s| mle::<PackedBinaryField32x8b, PackedBinaryField2x128b>(s));
        r.sampled("mle_b128_b128", "MultilinearExtensionTransparent", 1000, |s| mle::<PackedBinaryField4x128b, PackedBinaryField4x128b>(s));
        r.sampled("mle_b2_b8", "MultilinearExtensionTransparent", 1000, |s| mle::<PackedBinaryField64x2b, PackedBinaryField16x8b>(s));
        super::obligations(r);
    }
}

#[cfg(not(kani))]
pub use native::register;

obligations! {
    step_down_3, quick, 20, "bounded: 3 variables, every index, all points over GF(4)", "StepDown::{new,evaluate}", steps::<BinaryField2b, 3, 0>;
    step_up_3, quick, 20, "bounded: 3 variables, every index, all points over GF(4)", "StepUp::{new,evaluate}", steps::<BinaryField2b, 3, 1>;
    select_row_3, quick, 20, "bounded: 3 variables, every index, all points over GF(4)", "SelectRow::{new,evaluate}", steps::<BinaryField2b, 3, 2>;
    shift_circular_2_1, quick, 20, "bounded: 2 variables, offset 1, all points over GF(4)", "ShiftIndPartialEval::{new,evaluate}", shift::<BinaryField2b, 2, 0, 1>;
    shift_circular_2_3, quick, 20, "bounded: 2 variables, offset 3, all points over GF(4)", "ShiftIndPartialEval::{new,evaluate}", shift::<BinaryField2b, 2, 0, 3>;
    shift_circular_2, thorough, 20, "bounded: 2 variables, every offset, all points over GF(4)", "ShiftIndPartialEval::{new,evaluate}", shift::<BinaryField2b, 2, 0, 0>;
    shift_left_2_1, quick, 20, "bounded: 2 variables, offset 1, all points over GF(4)", "ShiftIndPartialEval::{new,evaluate}", shift::<BinaryField2b, 2, 1, 1>;
    shift_left_2_3, quick, 20, "bounded: 2 variables, offset 3, all points over GF(4)", "ShiftIndPartialEval::{new,evaluate}", shift::<BinaryField2b, 2, 1, 3>;
    shift_left_2, thorough, 20, "bounded: 2 variables, every offset, all points over GF(4)", "ShiftIndPartialEval::{new,evaluate}", shift::<BinaryField2b, 2, 1, 0>;
    shift_right_2_1, quick, 20, "bounded: 2 variables, offset 1, all points over GF(4)", "ShiftIndPartialEval::{new,evaluate}", shift::<BinaryField2b, 2, 2, 1>;
    shift_right_2_3, quick, 20, "bounded: 2 variables, offset 3, all points over GF(4)", "ShiftIndPartialEval::{new,evaluate}", shift::<BinaryField2b, 2, 2, 3>;
    shift_right_2, thorough, 20, "bounded: 2 variables, every offset, all points over GF(4)", "ShiftIndPartialEval::{new,evaluate}", shift::<BinaryField2b, 2, 2, 0>;
    eq_ind_2, quick, 20, "bounded: 2 variables, all points over GF(4)", "EqIndPartialEval::evaluate", eq_ind::<BinaryField2b, 2>;
    powers_2, quick, 20, "bounded: 2 variables, all bases and points over GF(4)", "Powers::evaluate", powers::<BinaryField2b, 2>;
    disjoint_product_2, thorough, 20, "bounded: 1+1 variables over GF(4)", "DisjointProduct::evaluate", disjoint::<BinaryField2b>;
}
