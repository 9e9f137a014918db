//! C12: evaluation claims on oracles.
use crate::rt::*;
use crate::{ensures, obligations, requires};

obligations! {
}
#[cfg(not(kani))]
pub use native::register;
#[cfg(not(kani))]
mod native {
    use super::*;
    use crate::sys::{by_definition, f, raw, Sys, F};
    use binius_core::fiat_shamir::HasherChallenger;
    use binius_core::oracle::{ConstraintPredicate, MultilinearOracleSet, OracleId, SizedConstraintSet};
    use binius_core::protocols::evalcheck::{EvalcheckMultilinearClaim, EvalcheckProver, EvalcheckVerifier};
    use binius_core::transcript::{ProverTranscript, VerifierTranscript};
    use binius_field::arch::OptimalUnderlier;
    use binius_field::*;
    use binius_hash::groestl::Groestl256;
    use binius_math::CompositionPoly;
    use std::collections::HashMap;

    type Ch = HasherChallenger<Groestl256>;
    type Claim = EvalcheckMultilinearClaim<F>;

    fn eq(p: &[F]) -> Vec<F> {
        (0..1usize << p.len()).map(|i| p.iter().enumerate().fold(F::ONE, |a, (j, x)| a * if i >> j & 1 == 1 { *x } else { F::ONE + *x })).collect()
    }
    fn mle(v: &[u128], p: &[F]) -> F {
        eq(p).iter().zip(v).fold(F::ZERO, |a, (e, x)| a + *e * f(*x))
    }
    /// The values of all oracles, also of those that a reduction added.
    struct Vals<'a> {
        mos: &'a MultilinearOracleSet<F>,
        known: HashMap<usize, Vec<u128>>,
    }
    impl Vals<'_> {
        fn of(&mut self, id: OracleId) -> Vec<u128> {
            if let Some(v) = self.known.get(&id.index()) {
                return v.clone();
            }
            let mos = self.mos;
            let v = by_definition(mos, id, &mut |x| self.of(x)).expect("committed oracles are known");
            self.known.insert(id.index(), v.clone());
            v
        }
        fn claim(&mut self, c: &Claim) -> bool {
            mle(&self.of(c.id), &c.eval_point) == c.eval
        }
        fn set(&mut self, c: &SizedConstraintSet<F>, at: Option<&[F]>) -> bool {
            let v: Vec<Vec<u128>> = c.oracle_ids.iter().map(|&o| self.of(o)).collect();
            let e = at.map(eq);
            c.constraints.iter().all(|k| {
                let sum = (0..1usize << c.n_vars).fold(F::ZERO, |a, i| {
                    let x: Vec<F> = v.iter().map(|v| f(v[i])).collect();
                    a + k.composition.evaluate(&x).unwrap() * e.as_ref().map_or(F::ONE, |e| e[i])
                });
                matches!(k.predicate, ConstraintPredicate::Sum(s) if s == sum)
            })
        }
    }
    fn coordinate(s: &mut NSrc) -> F {
        match s.below(5) {
            0 => F::ZERO,
            1 => F::ONE,
            _ => f(s.word(128)),
        }
    }
    /// None: rejected.  Some(all reduced claims are true)
    fn verified(sys: &Sys, mos: &MultilinearOracleSet<F>, claims: &[Claim], proof: &[u8]) -> Option<Result<(bool, Vec<Claim>), String>> {
        catches(|| {
            let mut mos = mos.clone();
            let mut t = VerifierTranscript::<Ch>::new(proof.to_vec());
            let (committed, sums, mles) = {
                let mut v = EvalcheckVerifier::new(&mut mos);
                v.verify(claims.to_vec(), &mut t).map_err(|e| e.to_string())?;
                let sums = v.take_new_sumcheck_constraints().map_err(|e| e.to_string())?;
                let mles = v.take_new_mlechecks_constraints().map_err(|e| e.to_string())?;
                (v.committed_eval_claims().clone(), sums, mles)
            };
            t.finalize().map_err(|e| e.to_string())?;
            let mut vals = Vals { mos: &mos, known: sys.live().into_iter().map(|c| (sys.cols[c].id.index(), sys.cols[c].vals.clone())).collect() };
            let ok = committed.iter().all(|c| vals.claim(c))
                && sums.iter().all(|c| vals.set(c, None))
                && mles.constraint_sets.iter().zip(&mles.eq_ind_challenges).all(|(c, p)| vals.set(c, Some(p)));
            Ok((ok, committed))
        })
    }
    fn session(s: &mut NSrc) -> R {
        let sys = Sys::random(s, true);
        let live = sys.live();
        requires!(!live.is_empty());
        let mos = sys.cs.oracles.instantiate(&sys.sizes).unwrap();
        let mut points: Vec<Vec<F>> = vec![];
        let mut claims: Vec<Claim> = vec![];
        for _ in 0..s.range(1, 5) {
            let c = &sys.cols[live[s.below(live.len())]];
            let p = match points.iter().find(|p| p.len() == c.n) {
                Some(p) if s.bool() => p.clone(),
                _ => (0..c.n).map(|_| coordinate(s)).collect(),
            };
            points.push(p.clone());
            claims.push(Claim { id: c.id, eval: mle(&c.vals, &p), eval_point: p.into() });
        }
        let r = catches(|| {
            let mut mos = mos.clone();
            let mut w = sys.witness::<OptimalUnderlier>();
            let mut t = ProverTranscript::<Ch>::new();
            let mut p = EvalcheckProver::new(&mut mos, &mut w);
            p.prove(claims.clone(), &mut t).map_err(|e| e.to_string())?;
            let c: Vec<Claim> = p.committed_eval_claims().to_vec();
            Ok::<_, String>((c, t.finalize()))
        });
        ensures!(matches!(r, Some(Ok(_))), "true claims can be proved", "{:?} {} {}", r.map(|x| x.map(|_| ())), last_panic(), sys.brief());
        let (committed, proof) = r.unwrap().unwrap();
        let key = |c: &Claim| (c.id.index(), c.eval_point.iter().map(|&x| raw(x)).collect::<Vec<_>>(), raw(c.eval));
        let v = verified(&sys, &mos, &claims, &proof);
        ensures!(matches!(v, Some(Ok(_))), "an honest evaluation proof verifies", "{:?} {} {}", v.map(|x| x.map(|_| ())), last_panic(), sys.brief());
        let (ok, seen) = v.unwrap().unwrap();
        ensures!(ok, "true claims reduce to true claims only", "{:?} {}", claims, sys.brief());
        let (mut a, mut b): (Vec<_>, Vec<_>) = (committed.iter().map(key).collect(), seen.iter().map(key).collect());
        a.sort();
        b.sort();
        ensures!(a == b, "prover and verifier agree on the claims on committed columns", "{}", sys.brief());
        // false claims, with the honest or an altered proof
        for k in 0..6 {
            let mut lie = claims.clone();
            let i = s.below(lie.len());
            let d = if s.bool() { F::ONE } else { f(s.word(128)) };
            if d == F::ZERO {
                continue;
            }
            lie[i].eval += d;
            let mut bytes = proof.clone();
            if k >= 2 && !bytes.is_empty() {
                for _ in 0..s.range(1, 2) {
                    let at = s.below(bytes.len());
                    match s.below(3) {
                        0 => bytes[at] ^= 1 << s.below(8),
                        1 => bytes[at] = 0,
                        // a field element that is off by the same difference
                        _ => raw(d).to_le_bytes().iter().zip(&mut bytes[at..]).for_each(|(x, y)| *y ^= x),
                    }
                }
            }
            let v = verified(&sys, &mos, &lie, &bytes);
            ensures!(v.is_some(), "a false claim is rejected without a panic", "{} {}", last_panic(), sys.brief());
            if let Some(Ok((ok, _))) = v {
                ensures!(!ok, "a false claim is rejected or leads to a false claim", "claim {} of {:?} off by {:x}, {}", i, claims, raw(d), sys.brief());
            }
        }
        Ok(())
    }
    pub fn register(r: &mut Runner) {
        super::obligations(r);
        r.sampled("session", "EvalcheckProver::prove, EvalcheckVerifier::verify, MultilinearOracleSet, subclaims", 200, session);
    }
}
