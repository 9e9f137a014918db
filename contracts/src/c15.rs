//! C15: expressions and circuits keep their value under every rewriting.
use crate::rt::*;
use crate::{ensures, obligations};
use binius_field::*;
use binius_math::{ArithCircuit, ArithExpr};

#[cfg(not(kani))]
fn ipow<F: Field>(b: F, mut e: u64) -> F {
    let (mut r, mut b) = (F::ONE, b);
    while e > 0 {
        if e & 1 == 1 {
            r *= b;
        }
        b *= b;
        e >>= 1;
    }
    r
}

/// A leaf: constant (0) or variable (1, 2).
fn leaf<F: Field>(k: usize, c: F, vals: &[F; 2]) -> (ArithCircuit<F>, F) {
    if k == 0 { (ArithCircuit::constant(c), c) } else { (ArithCircuit::var(k - 1), vals[k - 1]) }
}
fn comb<F: Field>(add: bool, a: (ArithCircuit<F>, F), b: (ArithCircuit<F>, F)) -> (ArithCircuit<F>, F) {
    if add { (a.0 + b.0, a.1 + b.1) } else { (a.0 * b.0, a.1 * b.1) }
}
fn f2(s: &mut impl Src) -> BinaryField2b {
    BinaryField2b::new(binius_field::underlier::U2::new(s.word(2) as u8))
}
/// The circuit A op B with symbolic constants and values.
fn fold<const A: usize, const B: usize, const ADD: bool>(s: &mut impl Src) -> R {
    let vals = [f2(s), f2(s)];
    let (ca, cb) = (f2(s), f2(s));
    let (c, v) = comb(ADD, leaf(A, ca, &vals), leaf(B, cb, &vals));
    let c = c.optimize_constants();
    ensures!(matches!(c.evaluate(&vals), Ok(x) if x == v), "constant folding keeps the value");
    Ok(())
}
fn subst<const A: usize, const B: usize, const ADD: bool>(s: &mut impl Src) -> R {
    let vals = [f2(s), f2(s)];
    let (ca, cb) = (f2(s), f2(s));
    let (c, v) = comb(ADD, leaf(A, ca, &vals), leaf(B, cb, &vals));
    let k = s.below(2);
    let mut other = vals;
    other[k] = f2(s);
    ensures!(matches!(c.const_subst(k, vals[k]).evaluate(&other), Ok(x) if x == v), "substituting a constant fixes the variable");
    Ok(())
}

#[cfg(not(kani))]
pub use nat::register;
#[cfg(not(kani))]
mod nat {
    use super::*;
    use crate::spec::Fx;
    use binius_core::composition::{IndexComposition, ProductComposition, index_composition};
    use binius_fast_compute::arith_circuit::ArithCircuitPoly;
    use binius_math::{ArithCircuitStep, CompositionPoly, RowsBatch, RowsBatchRef};
    use std::sync::Arc;

    #[derive(Clone, Copy, Debug)]
    enum Node<F> {
        C(F),
        V(usize),
        A(usize, usize),
        M(usize, usize),
        P(usize, u64),
    }
    #[derive(Debug)]
    struct Dag<F> {
        nodes: Vec<Node<F>>,
    }
    fn fe<F: Field + Fx>(s: &mut NSrc) -> F {
        match s.below(5) {
            0 => F::ZERO,
            1 => F::ONE,
            _ => F::of(s.word(F::NB)),
        }
    }
    const NV: usize = 5;
    impl<F: Field + Fx> Dag<F> {
        fn gen_(s: &mut NSrc, big: bool) -> Self {
            let n = 1 + s.below(if big { 40 } else { 12 });
            // a small set of leaves makes structurally equal subterms frequent
            let shape = s.below(3);
            let mut nodes: Vec<Node<F>> = vec![];
            for i in 0..n {
                let k = s.below(if shape == 0 { 8 } else { 12 });
                let pick = |s: &mut NSrc, i: usize| if s.below(3) == 0 { i - 1 - s.below(i.min(3)) } else { s.below(i) };
                nodes.push(if i == 0 || k == 0 || k == 1 {
                    if s.below(3) == 0 { Node::C(fe(s)) } else { Node::V(s.below(NV)) }
                } else if k < 5 {
                    Node::A(pick(s, i), pick(s, i))
                } else if k < 10 {
                    Node::M(pick(s, i), pick(s, i))
                } else {
                    Node::P(pick(s, i), [0, 1, 2, 3, 4, 5, 7, 8, 255, 256][s.below(10)])
                });
            }
            let mut d = Dag { nodes };
            // degree and several passes are exponential in the depth of shared chains: keep the unfolded tree small
            while d.tree_size(d.nodes.len() - 1) > 3000 || d.deg() > 4000 {
                d.nodes.pop();
            }
            d
        }
        fn tree_size(&self, root: usize) -> u64 {
            let mut t = vec![0u64; self.nodes.len()];
            for i in 0..=root {
                t[i] = match self.nodes[i] {
                    Node::A(a, b) | Node::M(a, b) => 1 + t[a].saturating_add(t[b]),
                    Node::P(a, _) => 1 + t[a],
                    _ => 1,
                };
            }
            t[root]
        }
        fn degs(&self) -> Vec<u64> {
            let mut t = vec![0u64; self.nodes.len()];
            for i in 0..self.nodes.len() {
                t[i] = match self.nodes[i] {
                    Node::A(a, b) => t[a].max(t[b]),
                    Node::M(a, b) => t[a].saturating_add(t[b]),
                    Node::P(a, e) => t[a].saturating_mul(e),
                    Node::C(_) => 0,
                    Node::V(_) => 1,
                };
            }
            t
        }
        fn deg(&self) -> u64 {
            *self.degs().last().unwrap()
        }
        fn expr(&self) -> Arc<ArithExpr<F>> {
            let mut e: Vec<Arc<ArithExpr<F>>> = vec![];
            for n in &self.nodes {
                let x = match *n {
                    Node::C(c) => ArithExpr::Const(c),
                    Node::V(v) => ArithExpr::Var(v),
                    Node::A(a, b) => ArithExpr::Add(e[a].clone(), e[b].clone()),
                    Node::M(a, b) => ArithExpr::Mul(e[a].clone(), e[b].clone()),
                    Node::P(a, p) => ArithExpr::Pow(e[a].clone(), p),
                };
                e.push(Arc::new(x));
            }
            e.pop().unwrap()
        }
        /// built with the operators of ArithExpr instead of its constructors
        fn expr_ops(&self) -> ArithExpr<F> {
            let mut e: Vec<ArithExpr<F>> = vec![];
            for (i, n) in self.nodes.iter().enumerate() {
                let x = match *n {
                    Node::C(c) => ArithExpr::Const(c),
                    Node::V(v) => ArithExpr::Var(v),
                    Node::A(a, b) => match i % 5 {
                        0 => e[a].clone() + e[b].clone(),
                        1 => e[a].clone() - Arc::new(e[b].clone()),
                        2 => [e[a].clone(), e[b].clone()].into_iter().sum(),
                        3 => {
                            let mut x = e[a].clone();
                            x += e[b].clone();
                            x
                        }
                        _ => {
                            let mut x = e[a].clone();
                            x -= Arc::new(e[b].clone());
                            x
                        }
                    },
                    Node::M(a, b) => match i % 4 {
                        0 => e[a].clone() * e[b].clone(),
                        1 => e[a].clone() * Arc::new(e[b].clone()),
                        2 => [e[a].clone(), e[b].clone()].into_iter().product(),
                        _ => {
                            let mut x = e[a].clone();
                            x *= e[b].clone();
                            x
                        }
                    },
                    Node::P(a, p) => e[a].clone().pow(p),
                };
                e.push(x);
            }
            e.pop().unwrap()
        }
        fn circuit_ops(&self) -> ArithCircuit<F> {
            let mut e: Vec<ArithCircuit<F>> = vec![];
            for (i, n) in self.nodes.iter().enumerate() {
                let x = match *n {
                    Node::C(c) => ArithCircuit::constant(c),
                    Node::V(v) => ArithCircuit::var(v),
                    Node::A(a, b) => match i % 4 {
                        0 => e[a].clone() + e[b].clone(),
                        1 => e[a].clone() - e[b].clone(),
                        2 => [e[a].clone(), e[b].clone()].into_iter().sum(),
                        _ => {
                            let mut x = e[a].clone();
                            if i % 8 < 4 { x += e[b].clone() } else { x -= e[b].clone() }
                            x
                        }
                    },
                    Node::M(a, b) => match i % 3 {
                        0 => e[a].clone() * e[b].clone(),
                        1 => [e[a].clone(), e[b].clone()].into_iter().product(),
                        _ => {
                            let mut x = e[a].clone();
                            x *= e[b].clone();
                            x
                        }
                    },
                    Node::P(a, p) => e[a].clone().pow(p),
                };
                e.push(x);
            }
            e.pop().unwrap()
        }
        fn eval<P: PackedField>(&self, q: &[P]) -> P
        where
            P::Scalar: ExtensionField<F>,
        {
            let mut v: Vec<P> = vec![];
            for n in &self.nodes {
                let x = match *n {
                    Node::C(c) => P::broadcast(c.into()),
                    Node::V(i) => q[i],
                    Node::A(a, b) => v[a] + v[b],
                    Node::M(a, b) => v[a] * v[b],
                    Node::P(a, e) => P::from_fn(|k| ipow(v[a].get(k), e)),
                };
                v.push(x);
            }
            v.pop().unwrap()
        }
        /// coefficients in t of the expression at (t*q_0, t*q_1, ...)
        fn along(&self, q: &[F]) -> Vec<F> {
            fn mul<F: Field>(a: &[F], b: &[F]) -> Vec<F> {
                let mut r = vec![F::ZERO; a.len() + b.len() - 1];
                for (i, &x) in a.iter().enumerate() {
                    for (j, &y) in b.iter().enumerate() {
                        r[i + j] += x * y;
                    }
                }
                r
            }
            let mut v: Vec<Vec<F>> = vec![];
            let degs = self.degs();
            for (i, n) in self.nodes.iter().enumerate() {
                if degs[i] > 64 {
                    v.push(vec![]); // cannot be part of a result of degree at most 64
                    continue;
                }
                let x = match *n {
                    Node::C(c) => vec![c],
                    Node::V(i) => vec![F::ZERO, q[i]],
                    Node::A(a, b) => {
                        let l = v[a].len().max(v[b].len());
                        (0..l).map(|k| v[a].get(k).copied().unwrap_or(F::ZERO) + v[b].get(k).copied().unwrap_or(F::ZERO)).collect()
                    }
                    Node::M(a, b) => mul(&v[a], &v[b]),
                    Node::P(a, e) => (0..e).fold(vec![F::ONE], |acc, _| mul(&acc, &v[a])),
                };
                v.push(x);
            }
            v.pop().unwrap()
        }
        fn vars(&self, root: usize, out: &mut [bool; NV]) {
            let mut seen = vec![false; root + 1];
            seen[root] = true;
            for i in (0..=root).rev() {
                if seen[i] {
                    match self.nodes[i] {
                        Node::A(a, b) | Node::M(a, b) => {
                            seen[a] = true;
                            seen[b] = true;
                        }
                        Node::P(a, _) => seen[a] = true,
                        Node::V(v) => out[v] = true,
                        _ => {}
                    }
                }
            }
        }
    }
    fn point<F: Field + Fx>(s: &mut NSrc) -> Vec<F> {
        (0..NV).map(|_| fe(s)).collect()
    }

    fn circuits<F: TowerField + Fx>(s: &mut NSrc) -> R {
        let d = Dag::<F>::gen_(s, true);
        let q = point::<F>(s);
        let want = d.eval(&q);
        let small = d.tree_size(d.nodes.len() - 1) <= 200;
        let e = d.expr();
        let mut forms: Vec<(&str, ArithCircuit<F>)> = vec![("from_expr", ArithCircuit::from(&*e))];
        if small {
            forms.push(("circuit operators", d.circuit_ops()));
            let eo = d.expr_ops();
            forms.push(("expr operators", ArithCircuit::from(&eo)));
        }
        let base = forms[0].1.clone();
        forms.push(("optimize_constants", base.clone().optimize_constants()));
        forms.push(("optimize", base.clone().optimize()));
        let mut t = base.clone();
        t.optimize_in_place();
        t.optimize_in_place();
        forms.push(("optimize twice", t));
        if small {
            let o = forms.iter().find(|f| f.0 == "circuit operators").unwrap().1.clone();
            forms.push(("optimize of operators", o.optimize()));
            let back = ArithExpr::from(&base);
            forms.push(("to expr and back", ArithCircuit::from(&back)));
            ensures!(ArithCircuit::from(&back) == base, "a circuit equals its conversion to an expression and back");
        }
        let mut used = [false; NV];
        d.vars(d.nodes.len() - 1, &mut used);
        for (n, c) in &forms {
            ensures!(c.evaluate(&q).ok() == Some(want), "every form of the expression evaluates to its value", "{n} {d:?}");
            ensures!(c.degree() as u64 <= d.deg(), "reported degree is at most the syntactic degree", "{n}");
            for (v, u) in c.vars_usage().iter().enumerate() {
                ensures!(!u || used[v], "only variables of the expression are reported as used", "{n}");
            }
            ensures!(c.n_vars() == c.vars_usage().len(), "variable count covers the used variables", "{n}");
            if let Some(k) = c.get_constant() {
                ensures!(k == want, "a reported constant is the value", "{n}");
            }
        }
        ensures!(base.degree() as u64 == d.deg(), "degree of the unoptimized circuit is the syntactic degree", "{d:?}");
        // a degree below the true one is an unsound bound: compare with the actual polynomial
        if d.deg() <= 64 && d.nodes.len() <= 16 {
            let al = d.along(&q);
            let true_deg = al.iter().rposition(|c| *c != F::ZERO).unwrap_or(0);
            for (n, c) in &forms {
                ensures!(c.degree() >= true_deg, "the reported degree is an upper bound", "{n} {d:?}");
                let lt = c.leading_term();
                let top = al.get(c.degree()).copied().unwrap_or(F::ZERO);
                if c.degree() > 0 {
                    ensures!(lt.evaluate(&q).ok() == Some(top), "the leading term is the part of highest degree", "{n} {d:?}");
                }
            }
        }
        Ok(())
    }
    fn rewrites<F: TowerField + Fx>(s: &mut NSrc) -> R {
        let d = Dag::<F>::gen_(s, false);
        let q = point::<F>(s);
        let want = d.eval(&q);
        let mut c = ArithCircuit::from(&*d.expr());
        if s.bool() {
            c.optimize_in_place();
        }
        // remap
        let m: Vec<usize> = (0..NV).map(|_| s.below(2 * NV)).collect();
        let big: Vec<F> = (0..2 * NV).map(|_| fe(s)).collect();
        let back: Vec<F> = m.iter().map(|&i| big[i]).collect();
        let r = c.remap_vars(&m);
        ensures!(r.is_ok(), "remapping with enough indices succeeds");
        ensures!(r.unwrap().evaluate(&big).ok() == Some(d.eval(&back)), "remapped circuit reads the mapped variables", "{d:?} {m:?}");
        let cut = s.below(NV);
        ensures!(c.remap_vars(&m[..cut]).is_ok() == (c.n_vars() <= cut), "remapping fails exactly when an index is missing");
        // substitution
        let v = s.below(NV);
        let mut q2 = q.clone();
        q2[v] = fe(s);
        let sub = c.clone().const_subst(v, q[v]);
        ensures!(sub.evaluate(&q2).ok() == Some(want), "substituting a constant fixes the variable", "{d:?} {v}");
        ensures!(!sub.vars_usage().get(v).copied().unwrap_or(false), "a substituted variable is no longer used");
        ensures!(sub.clone().optimize().evaluate(&q2).ok() == Some(want), "optimizing after substitution keeps the value", "{d:?} {v}");
        // linear normal form
        match c.linear_normal_form() {
            Ok(l) => {
                for p in [&q, &q2] {
                    let got: F = l.constant + l.var_coeffs.iter().zip(p.iter()).map(|(&a, &b)| a * b).sum::<F>();
                    ensures!(got == d.eval(p), "linear normal form evaluates to the expression", "{d:?}");
                }
                ensures!(l.var_coeffs.len() <= NV, "linear form has no more coefficients than variables");
            }
            Err(_) => ensures!(d.deg() >= 2, "an expression of degree at most one has a linear normal form", "{d:?}"),
        }
        Ok(())
    }
    /// Equality must not identify expressions of different value, and must accept the same structure.
    fn equality<F: TowerField + Fx>(s: &mut NSrc) -> R {
        let d = Dag::<F>::gen_(s, false);
        let mut nodes = d.nodes.clone();
        let k = s.below(nodes.len());
        nodes[k] = match (nodes[k], s.below(4)) {
            (n, 0) => n,
            (Node::A(a, b), 1) => Node::M(a, b),
            (Node::M(a, b), 1) => Node::A(a, b),
            (Node::A(a, b), _) => Node::A(b, a),
            (Node::M(a, _), 2) if k > 0 => Node::M(a, s.below(k)),
            (Node::M(a, b), _) => Node::M(b, a),
            (Node::P(a, e), 1) => Node::P(a, e + 1),
            (Node::P(a, _), _) => Node::P(s.below(a + 1), 3),
            (Node::V(v), _) => Node::V((v + s.below(2)) % NV),
            (Node::C(c), _) => Node::C(c + F::of(s.word(1))),
        };
        let d2 = Dag { nodes };
        if d2.tree_size(d2.nodes.len() - 1) > 3000 {
            return Err(Stop::Vacuous);
        }
        let (c1, c2) = (ArithCircuit::from(&*d.expr()), ArithCircuit::from(&*d2.expr()));
        ensures!(c1 == c1.clone(), "equality is reflexive");
        let q = point::<F>(s);
        if c1 == c2 {
            ensures!(d.eval(&q) == d2.eval(&q), "equal circuits have equal values", "{d:?} {d2:?}");
        }
        let (p1, p2) = (ArithCircuitPoly::new(c1), ArithCircuitPoly::new(c2));
        if p1 == p2 {
            ensures!(d.eval(&q) == d2.eval(&q), "equal composition polynomials have equal values", "{d:?} {d2:?}");
        }
        Ok(())
    }
    fn poly<F: TowerField + Fx, P: PackedField>(s: &mut NSrc) -> R
    where
        P::Scalar: ExtensionField<F> + Fx + TowerField,
    {
        let d = Dag::<F>::gen_(s, true);
        let c = ArithCircuit::from(&*d.expr());
        let n_vars = NV + s.below(2);
        ensures!(ArithCircuitPoly::with_n_vars(c.clone().optimize().n_vars().max(1) - 1, c.clone()).is_ok() == (c.clone().optimize().n_vars() == 0), "too few variables are refused");
        let p = match ArithCircuitPoly::with_n_vars(n_vars, c.clone()) {
            Ok(p) => p,
            Err(_) => return Err(Stop::Violated { obligation: "enough variables are accepted".into(), detail: String::new() }),
        };
        let pd = ArithCircuitPoly::new(c.clone());
        ensures!(CompositionPoly::<P>::n_vars(&p) == n_vars, "declared variable count");
        ensures!(CompositionPoly::<P>::degree(&p) as u64 <= d.deg(), "composition degree is at most the syntactic degree");
        let row_len = s.below(6);
        let rows: Vec<Vec<P>> = (0..n_vars).map(|_| (0..row_len).map(|_| P::from_fn(|_| fe::<P::Scalar>(s))).collect()).collect();
        let want: Vec<P> = (0..row_len).map(|j| d.eval(&rows.iter().map(|r| r[j]).collect::<Vec<_>>())).collect();
        for j in 0..row_len {
            let q: Vec<P> = rows.iter().map(|r| r[j]).collect();
            ensures!(p.evaluate(&q).ok() == Some(want[j]), "composition polynomial evaluates to the expression", "{d:?}");
            let qn = &q[..CompositionPoly::<P>::n_vars(&pd)];
            ensures!(pd.evaluate(qn).ok() == Some(want[j]), "composition polynomial (implicit variables) evaluates to the expression", "{d:?}");
            ensures!(p.evaluate(&q[..n_vars - 1]).is_err(), "a query of the wrong length is an error");
            let x = CompositionPoly::<P>::expression(&p);
            let lane = s.below(P::WIDTH);
            let ql: Vec<P::Scalar> = q.iter().map(|v| v.get(lane)).collect();
            ensures!(x.evaluate(&ql).ok() == Some(want[j].get(lane)), "reported expression has the same value", "{d:?}");
        }
        let mut out = vec![P::one(); row_len];
        let rb = RowsBatch::new(rows.iter().map(|r| &r[..]).collect(), row_len);
        ensures!(p.batch_evaluate(&rb.get_ref(), &mut out).is_ok(), "batch evaluation succeeds");
        ensures!(out == want, "batch evaluation equals evaluation per column", "{d:?}");
        // a view with an offset
        if row_len >= 2 {
            let off = s.below(row_len);
            let len = s.below(row_len - off + 1);
            let refs: Vec<&[P]> = rows.iter().map(|r| &r[..]).collect();
            let view = RowsBatchRef::new_with_offset(&refs, off, len);
            let mut out = vec![P::one(); len];
            ensures!(p.batch_evaluate(&view, &mut out).is_ok(), "batch evaluation of a view succeeds");
            ensures!(out == want[off..off + len], "batch evaluation of a view reads the viewed columns", "{d:?}");
            let sub = rb.get_ref().columns_subrange(off..off + len);
            let mut out2 = vec![P::one(); len];
            ensures!(p.batch_evaluate(&sub, &mut out2).is_ok() && out2 == out, "column subranges read the selected columns");
            let mut short = vec![P::one(); len + 1];
            ensures!(p.batch_evaluate(&view, &mut short).is_err(), "a size mismatch is an error");
        }
        Ok(())
    }
    fn compositions<P: PackedField>(s: &mut NSrc) -> R
    where
        P::Scalar: Fx + TowerField,
    {
        let n = 3 + s.below(4);
        let idx = [s.below(n + 1), s.below(n + 1), s.below(n + 1)];
        let ok = idx.iter().all(|i| *i < n);
        let ic = IndexComposition::new(n, idx, ProductComposition::<3>);
        ensures!(ic.is_ok() == ok, "an index composition is accepted exactly when its indices are in range");
        if !ok {
            return Ok(());
        }
        let ic = ic.unwrap();
        let row_len = 1 + s.below(4);
        let rows: Vec<Vec<P>> = (0..n).map(|_| (0..row_len).map(|_| P::from_fn(|_| fe::<P::Scalar>(s))).collect()).collect();
        let want: Vec<P> = (0..row_len).map(|j| rows[idx[0]][j] * rows[idx[1]][j] * rows[idx[2]][j]).collect();
        let rb = RowsBatch::new(rows.iter().map(|r| &r[..]).collect(), row_len);
        let mut out = vec![P::zero(); row_len];
        ensures!(ic.batch_evaluate(&rb.get_ref(), &mut out).is_ok() && out == want, "indexed product evaluates the selected columns", "{idx:?}");
        let q: Vec<P> = rows.iter().map(|r| r[0]).collect();
        ensures!(ic.evaluate(&q).ok() == Some(want[0]), "indexed product evaluates the selected variables");
        ensures!(ic.evaluate(&q[..n - 1]).is_err(), "a query of the wrong length is an error");
        let ql: Vec<P::Scalar> = q.iter().map(|v| v.get(0)).collect();
        ensures!(CompositionPoly::<P>::expression(&ic).evaluate(&ql).ok() == Some(want[0].get(0)), "expression of an indexed product");
        ensures!(CompositionPoly::<P>::degree(&ic) == 3 && CompositionPoly::<P>::n_vars(&ic) == n, "degree and variables of an indexed product");
        // by identifiers
        let superset: Vec<u32> = (0..n as u32).map(|i| i * 7 + 3).collect();
        let sub = idx.map(|i| superset[i]);
        let by = index_composition(&superset, sub, ProductComposition::<3>);
        ensures!(by.is_ok(), "identifiers of the superset are found");
        ensures!(by.unwrap().evaluate(&q).ok() == Some(want[0]), "identifiers select their own columns", "{idx:?}");
        let bad = index_composition(&superset, [sub[0], 1, sub[2]], ProductComposition::<3>);
        ensures!(bad.is_err(), "an unknown identifier is an error");
        Ok(())
    }
    fn convert(s: &mut NSrc) -> R {
        let d = Dag::<BinaryField8b>::gen_(s, false);
        let c = ArithCircuit::from(&*d.expr());
        let up: ArithCircuit<BinaryField64b> = c.convert_field();
        let q: Vec<BinaryField64b> = point(s);
        ensures!(up.evaluate(&q).ok() == Some(d.eval(&q)), "converting to an extension keeps the value", "{d:?}");
        let down: Result<ArithCircuit<BinaryField8b>, _> = up.try_convert_field();
        ensures!(down.is_ok() && down.as_ref().ok() == Some(&c), "converting back gives the circuit");
        let lvl = up.binary_tower_level();
        let want = c.steps().iter().map(|t| if let ArithCircuitStep::Const(v) = t { BinaryField8b::min_tower_level(*v) } else { 0 }).max().unwrap_or(0);
        ensures!(lvl == want, "tower level of the constants");
        let to4: Result<ArithCircuit<BinaryField4b>, _> = up.try_convert_field();
        ensures!(to4.is_ok() == (lvl <= 2), "converting down succeeds exactly when every constant fits", "{d:?}");
        Ok(())
    }
    pub fn register(r: &mut Runner) {
        r.sampled("circuits_b8", "ArithExpr, ArithCircuit::{from,evaluate,optimize*,degree,n_vars,vars_usage,leading_term,get_constant}", 6000, |s| circuits::<BinaryField8b>(s));
        r.sampled("circuits_b1", "ArithCircuit over BinaryField1b", 3000, |s| circuits::<BinaryField1b>(s));
        r.sampled("circuits_b128", "ArithCircuit over BinaryField128b", 2000, |s| circuits::<BinaryField128b>(s));
        r.sampled("rewrites_b8", "ArithCircuit::{remap_vars,const_subst,linear_normal_form}", 8000, |s| rewrites::<BinaryField8b>(s));
        r.sampled("rewrites_b2", "ArithCircuit::{remap_vars,const_subst,linear_normal_form}", 4000, |s| rewrites::<BinaryField2b>(s));
        r.sampled("rewrites_b128", "ArithCircuit::{remap_vars,const_subst,linear_normal_form}", 3000, |s| rewrites::<BinaryField128b>(s));
        r.sampled("equality_b8", "PartialEq for ArithCircuit, ArithCircuitPoly", 8000, |s| equality::<BinaryField8b>(s));
        r.sampled("equality_b64", "PartialEq for ArithCircuit, ArithCircuitPoly", 4000, |s| equality::<BinaryField64b>(s));
        r.sampled("poly_b8_16x8", "ArithCircuitPoly::{new,with_n_vars,evaluate,batch_evaluate,expression}", 4000, |s| poly::<BinaryField8b, PackedBinaryField16x8b>(s));
        r.sampled("poly_b1_128", "ArithCircuitPoly over a subfield of the packed scalar", 3000, |s| poly::<BinaryField1b, PackedBinaryField1x128b>(s));
        r.sampled("poly_b32_4x128", "ArithCircuitPoly over a subfield of the packed scalar", 3000, |s| poly::<BinaryField32b, PackedBinaryField4x128b>(s));
        r.sampled("compositions_2x128", "IndexComposition, ProductComposition, index_composition", 3000, |s| compositions::<PackedBinaryField2x128b>(s));
        r.sampled("compositions_8x1", "IndexComposition, ProductComposition, index_composition", 3000, |s| compositions::<PackedBinaryField8x1b>(s));
        r.sampled("convert", "ArithCircuit::{convert_field,try_convert_field,binary_tower_level}", 4000, convert);
        super::obligations(r);
    }
}

obligations! {
    fold_cc_add, quick, 6, "bounded: this shape over BinaryField2b, all constants and values", "ArithCircuit::{constant,add,evaluate,optimize_constants}", fold::<0, 0, true>;
    fold_cv_add, quick, 6, "bounded: this shape over BinaryField2b, all constants and values", "ArithCircuit::{constant,var,add,evaluate,optimize_constants}", fold::<0, 1, true>;
    fold_vc_add, quick, 6, "bounded: this shape over BinaryField2b, all constants and values", "ArithCircuit::{constant,var,add,evaluate,optimize_constants}", fold::<1, 0, true>;
    fold_vv_add, quick, 6, "bounded: this shape over BinaryField2b, all values", "ArithCircuit::{var,add,evaluate,optimize_constants}", fold::<1, 1, true>;
    fold_vw_add, quick, 6, "bounded: this shape over BinaryField2b, all values", "ArithCircuit::{var,add,evaluate,optimize_constants}", fold::<1, 2, true>;
    fold_cc_mul, quick, 6, "bounded: this shape over BinaryField2b, all constants and values", "ArithCircuit::{constant,mul,evaluate,optimize_constants}", fold::<0, 0, false>;
    fold_cv_mul, quick, 6, "bounded: this shape over BinaryField2b, all constants and values", "ArithCircuit::{constant,var,mul,evaluate,optimize_constants}", fold::<0, 1, false>;
    fold_vc_mul, quick, 6, "bounded: this shape over BinaryField2b, all constants and values", "ArithCircuit::{constant,var,mul,evaluate,optimize_constants}", fold::<1, 0, false>;
    fold_vv_mul, quick, 6, "bounded: this shape over BinaryField2b, all values", "ArithCircuit::{var,mul,evaluate,optimize_constants}", fold::<1, 1, false>;
    subst_vw_mul, quick, 6, "bounded: this shape over BinaryField2b, all values", "ArithCircuit::const_subst", subst::<1, 2, false>;
    subst_vc_add, quick, 6, "bounded: this shape over BinaryField2b, all values", "ArithCircuit::const_subst", subst::<2, 0, true>;
}
