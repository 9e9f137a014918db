//! C11: grand products and exponentiations.
use crate::rt::*;
use crate::{ensures, obligations, requires};

obligations! {
}
#[cfg(not(kani))]
pub use native::register;
#[cfg(not(kani))]
mod native {
    use super::*;
    use crate::sys::{f, poly, raw, F};
    use binius_core::fiat_shamir::HasherChallenger;
    use binius_core::oracle::OracleId;
    use binius_core::protocols::{gkr_exp, gkr_gpa};
    use binius_core::transcript::{ProverTranscript, VerifierTranscript};
    use binius_field::arch::{OptimalUnderlier128b, OptimalUnderlier256b, OptimalUnderlier512b};
    use binius_field::as_packed_field::PackedType;
    use binius_field::packed::set_packed_slice;
    use binius_field::*;
    use binius_hal::make_portable_backend;
    use binius_hash::groestl::Groestl256;
    use binius_math::{DefaultEvaluationDomainFactory, EvaluationOrder, IsomorphicEvaluationDomainFactory};
    use std::collections::HashMap;

    type Ch = HasherChallenger<Groestl256>;
    type Claims = Vec<(usize, Vec<F>, F)>;

    fn mle(v: &[u128], p: &[F]) -> F {
        (0..1usize << p.len()).fold(F::ZERO, |a, i| a + p.iter().enumerate().fold(f(v[i]), |a, (j, x)| a * if i >> j & 1 == 1 { *x } else { F::ONE + *x }))
    }
    fn order(s: &mut NSrc) -> EvaluationOrder {
        if s.bool() { EvaluationOrder::LowToHigh } else { EvaluationOrder::HighToLow }
    }
    fn value(s: &mut NSrc, bits: usize) -> u128 {
        match s.below(8) {
            0 => 1,
            1 => 2,
            _ => s.word(bits as u32),
        }
    }
    /// The honest proof verifies and both sides reduce to the same true claims; a false statement or an
    /// altered proof is rejected or leads to a false claim.
    fn game(s: &mut NSrc, what: &str, n: usize, vals: &HashMap<usize, Vec<u128>>, proof: &[u8], proved: &Claims, verify: &dyn Fn(Option<(usize, F)>, &[u8]) -> Option<Result<Claims, String>>) -> R {
        let truth = |c: &Claims| c.iter().all(|(id, p, e)| mle(&vals[id], p) == *e);
        let v = verify(None, proof);
        ensures!(matches!(v, Some(Ok(_))), "the honest proof verifies", "{} {:?} {}", what, v, last_panic());
        let v = v.unwrap().unwrap();
        ensures!(truth(&v), "the reduced claims are true", "{}", what);
        ensures!(v == *proved, "prover and verifier reduce to the same claims", "{}", what);
        for k in 0..5 {
            let lie = (k < 3).then(|| (s.below(n), if s.bool() { F::ONE } else { f(s.word(127) + 1) }));
            let mut bytes = proof.to_vec();
            if k > 0 {
                requires!(!bytes.is_empty());
                let at = s.below(bytes.len());
                bytes[at] ^= 1 << s.below(8);
                if let (Some((_, d)), true) = (lie, s.bool()) {
                    // a message off by the same difference
                    bytes = proof.to_vec();
                    let at = s.below(bytes.len()) / 16 * 16;
                    raw(d).to_le_bytes().iter().zip(&mut bytes[at..]).for_each(|(x, y)| *y ^= x);
                }
            }
            let v = verify(lie, &bytes);
            ensures!(v.is_some(), "a false statement is rejected without a panic", "{} {}", what, last_panic());
            if let Some(Ok(c)) = v {
                ensures!(!truth(&c), "a false statement or an altered proof is rejected or leads to a false claim", "{} lie {:?}", what, lie);
            }
        }
        Ok(())
    }
    macro_rules! widths {
        ($gpa:ident, $exp:ident, $u:ty) => {
            fn $gpa(s: &mut NSrc) -> R {
                type P = PackedType<$u, F>;
                let (ord, n) = (order(s), s.range(1, 4));
                let (mut claims, mut wit, mut vals) = (vec![], vec![], HashMap::new());
                let mut what = format!("{ord:?}");
                for k in 0..n {
                    let nv = s.range(1, 6);
                    let full = 1usize << nv.saturating_sub(P::LOG_WIDTH);
                    // absent values are one
                    let len = if s.bool() { full } else { s.range(0, full) };
                    let mut v: Vec<u128> = (0..1usize << nv).map(|_| value(s, 128)).collect();
                    let mut x = vec![P::zero(); len];
                    for i in 0..1 << nv {
                        if i < len * P::WIDTH {
                            set_packed_slice(&mut x, i, f(v[i]));
                        } else {
                            v[i] = 1;
                        }
                    }
                    what += &format!(" 2^{nv} values in {len} elements");
                    let product = v.iter().fold(F::ONE, |a, &x| a * f(x));
                    let w = catches(|| gkr_gpa::GrandProductWitness::new(nv, x));
                    ensures!(matches!(w, Some(Ok(_))), "a witness can be built", "{} {}", what, last_panic());
                    let w = w.unwrap().unwrap();
                    ensures!(w.grand_product_evaluation() == product && w.n_vars() == nv, "the claimed product is the product of all entries", "{}", what);
                    claims.push(gkr_gpa::GrandProductClaim { n_vars: nv, product });
                    wit.push(w);
                    vals.insert(k, v);
                }
                let mut t = ProverTranscript::<Ch>::new();
                let r = catches(|| gkr_gpa::batch_prove::<_, _, BinaryField32b, _, _>(ord, wit, &claims, IsomorphicEvaluationDomainFactory::<BinaryField32b>::default(), &mut t, &make_portable_backend()).map_err(|e| e.to_string()));
                ensures!(matches!(r, Some(Ok(_))), "true products can be proved", "{} {:?} {}", what, r.map(|x| x.map(|_| ())), last_panic());
                let list = |c: Vec<gkr_gpa::LayerClaim<F>>| c.into_iter().enumerate().map(|(i, c)| (i, c.eval_point, c.eval)).collect::<Claims>();
                let proved = list(r.unwrap().unwrap().final_layer_claims);
                let proof = t.finalize();
                let verify = |lie: Option<(usize, F)>, bytes: &[u8]| {
                    let mut c = claims.clone();
                    lie.map(|(i, d)| c[i].product += d);
                    catches(|| {
                        let mut t = VerifierTranscript::<Ch>::new(bytes.to_vec());
                        let r = gkr_gpa::batch_verify(ord, c, &mut t).map_err(|e| e.to_string())?;
                        t.finalize().map_err(|e| e.to_string())?;
                        Ok(list(r))
                    })
                };
                game(s, &what, n, &vals, &proof, &proved, &verify)
            }
            fn $exp(s: &mut NSrc) -> R {
                type P = PackedType<$u, F>;
                type PB = PackedType<$u, BinaryField64b>;
                let (ord, n) = (order(s), s.range(1, 3));
                let mut sizes: Vec<usize> = (0..n).map(|_| s.range(P::LOG_WIDTH + 1, 6)).collect();
                sizes.sort_by(|a, b| b.cmp(a));
                let mut challenge = |s: &mut NSrc| f(s.word(128) | 2);
                let point: Vec<F> = (0..6).map(|_| challenge(s)).collect();
                let (mut claims, mut wit, mut vals) = (vec![], vec![], HashMap::new());
                let (mut metas, mut bases) = (vec![], vec![]);
                let mut what = format!("{ord:?}");
                for k in 0..n {
                    let (nv, width, dynamic) = (sizes[k], s.range(1, 5), s.bool());
                    what += &format!(" {width} bits at 2^{nv} rows, dynamic {dynamic};");
                    let bits: Vec<Vec<u128>> = (0..width).map(|_| (0..1usize << nv).map(|_| s.word(1)).collect()).collect();
                    let b: Vec<u128> = (0..1usize << nv).map(|_| value(s, 64)).collect();
                    let g = value(s, 64);
                    requires!(dynamic || g > 1);
                    let power: Vec<u128> = (0..1usize << nv)
                        .map(|i| {
                            let mut x = f(if dynamic { b[i] } else { g });
                            let mut r = F::ONE;
                            for c in &bits {
                                if c[i] == 1 {
                                    r *= x;
                                }
                                x = x * x;
                            }
                            raw(r)
                        })
                        .collect();
                    let e: Vec<_> = bits.iter().map(|c| poly::<$u>(0, nv, c)).collect();
                    let w = catches(|| if dynamic { gkr_exp::BaseExpWitness::<P>::new_with_dynamic_base::<PB>(e, poly::<$u>(6, nv, &b)) } else { gkr_exp::BaseExpWitness::<P>::new_with_static_base::<PB>(e, BinaryField64b::new(g as u64)) });
                    ensures!(matches!(w, Some(Ok(_))), "a witness can be built", "{} {}", what, last_panic());
                    let w = w.unwrap().unwrap();
                    let r = w.exponentiation_result_witness();
                    ensures!(r.n_vars() == nv && (0..1 << nv).all(|i| r.evaluate_on_hypercube(i).unwrap() == f(power[i])), "the output is the base raised to the exponent at every row", "{}", what);
                    let p = if s.bool() { point[..nv].to_vec() } else { (0..nv).map(|_| challenge(s)).collect() };
                    claims.push(gkr_exp::ExpClaim { eval: mle(&power, &p), eval_point: p, exponent_bit_width: width, n_vars: nv, static_base: (!dynamic).then_some(f(g)) });
                    wit.push(w);
                    metas.push((0..width).map(|j| OracleId::from_index(100 * k + j)).collect::<Vec<_>>());
                    bases.push(dynamic.then_some(OracleId::from_index(100 * k + 99)));
                    bits.into_iter().enumerate().for_each(|(j, c)| {
                        vals.insert(100 * k + j, c);
                    });
                    vals.insert(100 * k + 99, b);
                }
                let list = |r: gkr_exp::BaseExpReductionOutput<F>| gkr_exp::make_eval_claims(metas.clone(), r, bases.clone()).map(|c| c.into_iter().map(|c| (c.id.index(), c.eval_point.to_vec(), c.eval)).collect::<Claims>()).map_err(|e| e.to_string());
                let mut t = ProverTranscript::<Ch>::new();
                let r = catches(|| gkr_exp::batch_prove(ord, wit, &claims, DefaultEvaluationDomainFactory::<BinaryField8b>::default(), &mut t, &make_portable_backend()).map_err(|e| e.to_string()).and_then(list));
                ensures!(matches!(r, Some(Ok(_))), "true powers can be proved", "{} {:?} {}", what, r.map(|x| x.map(|_| ())), last_panic());
                let proved = r.unwrap().unwrap();
                ensures!(proved.len() == metas.iter().zip(&bases).map(|(m, b)| m.len() * (1 + b.is_some() as usize)).sum::<usize>(), "every exponent bit and base is claimed", "{}", what);
                let proof = t.finalize();
                let verify = |lie: Option<(usize, F)>, bytes: &[u8]| {
                    let mut c = claims.clone();
                    lie.map(|(i, d)| c[i].eval += d);
                    catches(|| {
                        let mut t = VerifierTranscript::<Ch>::new(bytes.to_vec());
                        let r = gkr_exp::batch_verify(ord, &c, &mut t).map_err(|e| e.to_string())?;
                        t.finalize().map_err(|e| e.to_string())?;
                        list(r)
                    })
                };
                game(s, &what, n, &vals, &proof, &proved, &verify)
            }
        };
    }
    widths!(gpa128, exp128, OptimalUnderlier128b);
    widths!(gpa256, exp256, OptimalUnderlier256b);
    widths!(gpa512, exp512, OptimalUnderlier512b);
    pub fn register(r: &mut Runner) {
        super::obligations(r);
        let (g, e) = ("GrandProductWitness::new, gkr_gpa::{batch_prove,batch_verify}", "BaseExpWitness, gkr_exp::{batch_prove,batch_verify,make_eval_claims}");
        r.sampled("products_1x", g, 60, gpa128);
        r.sampled("products_2x", g, 60, gpa256);
        r.sampled("products_4x", g, 60, gpa512);
        r.sampled("powers_1x", e, 60, exp128);
        r.sampled("powers_2x", e, 60, exp256);
        r.sampled("powers_4x", e, 60, exp512);
    }
}
