//! C22: ring switching and batched openings.
use crate::rt::*;
use crate::{ensures, obligations, requires};

obligations! {
}
#[cfg(not(kani))]
pub use native::register;
#[cfg(not(kani))]
mod native {
    use super::*;
    use crate::sys::{f, poly, raw, word, F};
    use binius_compute::cpu::layer::CpuLayerHolder;
    use binius_compute::{ComputeHolder, ComputeLayer};
    use binius_core::fiat_shamir::HasherChallenger;
    use binius_core::merkle_tree::{BinaryMerkleTreeProver, MerkleTreeProver};
    use binius_core::oracle::{MultilinearOracleSet, OracleId};
    use binius_core::piop;
    use binius_core::protocols::evalcheck::{EvalcheckMultilinearClaim, subclaims::MemoizedData};
    use binius_core::protocols::fri::CommitOutput;
    use binius_core::ring_switch::{self, EvalClaimSystem};
    use binius_core::tensor_algebra::TensorAlgebra;
    use binius_core::transcript::{ProverTranscript, VerifierTranscript};
    use binius_core::witness::MultilinearExtensionIndex;
    use binius_fast_compute::layer::FastCpuLayerHolder;
    use binius_field::arch::OptimalUnderlier128b as U;
    use binius_field::as_packed_field::PackedType;
    use binius_field::*;
    use binius_hash::groestl::{Groestl256, Groestl256ByteCompression};
    use binius_ntt::SingleThreadedNTT;

    type Ch = HasherChallenger<Groestl256>;
    type P = PackedType<U, F>;
    type Claim = EvalcheckMultilinearClaim<F>;

    fn mle(v: &[u128], p: &[F]) -> F {
        (0..1usize << p.len()).fold(F::ZERO, |a, i| a + p.iter().enumerate().fold(f(v[i]), |a, (j, x)| a * if i >> j & 1 == 1 { *x } else { F::ONE + *x }))
    }
    struct Case {
        mos: MultilinearOracleSet<F>,
        ids: Vec<OracleId>,
        claims: Vec<Claim>,
        rate: usize,
    }
    fn verified(c: &Case, claims: &[Claim], proof: &[u8]) -> Option<Result<(), String>> {
        catches(|| {
            let scheme = BinaryMerkleTreeProver::<F, Groestl256, _>::new(Groestl256ByteCompression);
            let scheme = MerkleTreeProver::<F>::scheme(&scheme);
            let (meta, index) = piop::make_oracle_commit_meta(&c.mos).map_err(|e| e.to_string())?;
            let params = piop::make_commit_params_with_optimal_arity::<_, BinaryField32b, _>(&meta, scheme, 32, c.rate).map_err(|e| e.to_string())?;
            let system = EvalClaimSystem::new(&c.mos, &meta, &index, claims).map_err(|e| e.to_string())?;
            let mut t = VerifierTranscript::<Ch>::new(proof.to_vec());
            let commitment = t.message().read().map_err(|e| e.to_string())?;
            let r = ring_switch::verify(&system, &mut t).map_err(|e| e.to_string())?;
            piop::verify(&meta, scheme, &params, &commitment, &r.transparents, &r.sumcheck_claims, &mut t).map_err(|e| e.to_string())?;
            t.finalize().map_err(|e| e.to_string())
        })
    }
    fn session<Hal: ComputeLayer<F>, H: ComputeHolder<F, Hal>>(s: &mut NSrc, holder: impl Fn(usize, usize) -> H) -> R {
        let mut mos = MultilinearOracleSet::<F>::new();
        let (mut ids, mut vals, mut what) = (vec![], vec![], String::new());
        let mut w = MultilinearExtensionIndex::<P>::new();
        for k in 0..s.range(1, 4) {
            let level = [0, 3, 4, 5, 6, 7][s.below(6)];
            // the first one fills the code
            let n = if k == 0 { 7 - level + s.range(3, 4) } else { s.range(0, 11 - level) };
            let id = mos.add_committed(n, level);
            let v: Vec<u128> = (0..1usize << n).map(|_| word(s, level)).collect();
            w.update_multilin_poly([(id, poly::<U>(level, n, &v))]).unwrap();
            what += &format!("2^{n} of level {level}; ");
            ids.push(id);
            vals.push(v);
        }
        let point: Vec<F> = (0..12).map(|_| f(s.word(128))).collect();
        let mut claims = vec![];
        for k in 0..ids.len() {
            for _ in 0..s.range(1, 2) {
                let n = mos.n_vars(ids[k]);
                let p = match s.below(4) {
                    0 => point[..n].to_vec(),
                    1 => point[12 - n..].to_vec(),
                    2 => (0..n).map(|_| f(s.word(1))).collect(),
                    _ => (0..n).map(|_| f(s.word(128))).collect(),
                };
                claims.push(Claim { id: ids[k], eval: mle(&vals[k], &p), eval_point: p.into() });
            }
        }
        let c = Case { mos, ids, claims, rate: s.range(1, 2) };
        // the layout is a partition
        let (meta, index) = piop::make_oracle_commit_meta(&c.mos).unwrap();
        let mut seen = vec![0; c.ids.len()];
        for &id in &c.ids {
            let Some(&at) = index.get(id.index()) else { ensures!(false, "every committed column has a place", "{}", what); unreachable!() };
            ensures!(at < seen.len(), "places are within the commitment", "{}", what);
            seen[at] += 1;
            let packed = (c.mos.n_vars(id) + c.mos.tower_level(id)).saturating_sub(7);
            ensures!(meta.range_by_vars(packed).contains(&at), "a column lies among those of its size", "{}", what);
        }
        ensures!(seen.iter().all(|&x| x == 1) && meta.total_multilins() == seen.len(), "no two columns share a place", "{}", what);
        let size: usize = c.ids.iter().map(|&id| 1usize << (c.mos.n_vars(id) + c.mos.tower_level(id)).saturating_sub(7)).sum();
        ensures!(1 << meta.total_vars() >= size && (meta.total_vars() == 0 || 1 << (meta.total_vars() - 1) < size), "the commitment is the least power of two that holds all columns", "{}", what);
        let r = catches(|| {
            let prover = BinaryMerkleTreeProver::<F, Groestl256, _>::new(Groestl256ByteCompression);
            let params = piop::make_commit_params_with_optimal_arity::<_, BinaryField32b, _>(&meta, MerkleTreeProver::<F>::scheme(&prover), 32, c.rate).map_err(|e| e.to_string())?;
            let ntt = SingleThreadedNTT::with_subspace(params.rs_code().subspace()).map_err(|e| e.to_string())?;
            let wit = piop::collect_committed_witnesses::<U, _>(&meta, &index, &c.mos, &w).map_err(|e| e.to_string())?;
            let CommitOutput { commitment, committed, codeword } = piop::commit(&params, &ntt, &prover, &wit).map_err(|e| e.to_string())?;
            let system = EvalClaimSystem::new(&c.mos, &meta, &index, &c.claims).map_err(|e| e.to_string())?;
            let mut h = holder(1 << 8, 1 << 15);
            let mut data = h.to_data();
            let data = &mut data;
            let mut t = ProverTranscript::<Ch>::new();
            t.message().write(&commitment);
            let r = ring_switch::prove(&system, &wit, &mut t, MemoizedData::new(), data.hal, &data.dev_alloc, &data.host_alloc).map_err(|e| e.to_string())?;
            piop::prove(data, &params, &ntt, &prover, &meta, committed, &codeword, &wit, r.transparents, &r.sumcheck_claims, &mut t).map_err(|e| e.to_string())?;
            Ok::<_, String>(t.finalize())
        });
        ensures!(matches!(r, Some(Ok(_))), "true claims can be opened", "{} {:?} {}", what, r.map(|x| x.map(|_| ())), last_panic());
        let proof = r.unwrap().unwrap();
        let v = verified(&c, &c.claims, &proof);
        ensures!(matches!(v, Some(Ok(()))), "an honest opening verifies", "{} {:?} {}", what, v, last_panic());
        for k in 0..4 {
            let (mut lie, mut bytes) = (c.claims.clone(), proof.clone());
            if k < 2 {
                let (i, d) = (s.below(lie.len()), f(s.word(127) + 1));
                lie[i].eval += d;
                if k == 1 {
                    let at = s.below(bytes.len().min(600)) / 16 * 16;
                    raw(d).to_le_bytes().iter().zip(&mut bytes[at..]).for_each(|(x, y)| *y ^= x);
                }
            } else {
                let at = if s.bool() { s.below(bytes.len()) } else { s.below(bytes.len().min(400)) };
                bytes[at] ^= 1 << s.below(8);
            }
            let v = verified(&c, &lie, &bytes);
            ensures!(matches!(v, Some(Err(_))), "a false claim or an altered message is rejected", "{} {} {:?} {}", what, k, v, last_panic());
        }
        Ok(())
    }
    fn cpu(s: &mut NSrc) -> R {
        session(s, |h, d| CpuLayerHolder::<F>::new(h, d))
    }
    fn fast(s: &mut NSrc) -> R {
        session(s, |h, d| FastCpuLayerHolder::<BinaryField128bTower, P>::new(h, d))
    }
    type BinaryField128bTower = binius_field::tower::CanonicalTowerFamily;
    macro_rules! algebra {
        ($name:ident, $base:ty, $ext:ty) => {
            fn $name(s: &mut NSrc) -> R {
                type A = TensorAlgebra<$base, $ext>;
                let n = 1u32 << <$ext>::TOWER_LEVEL;
                let mut x = || <$ext>::from_underlier(s.word(n) as _);
                let (v, h, k, v2, h2) = (x(), x(), x(), x(), x());
                let d = <$ext as ExtensionField<$base>>::DEGREE;
                let coeffs: Vec<$ext> = (0..d).map(|_| x()).collect();
                let t = A::tensor(v, h);
                ensures!((0..d).all(|i| t.vertical_elems()[i] == v * <$ext as ExtensionField<$base>>::get_base(&h, i)), "the tensor of two elements holds their products");
                ensures!(t.clone().transpose() == A::tensor(h, v), "transposition swaps the factors", "{:?} {:?}", v, h);
                ensures!(t.clone().scale_vertical(k) == A::tensor(v * k, h) && t.clone().scale_horizontal(k) == A::tensor(v, h * k), "scaling multiplies a factor", "{:?} {:?} {:?}", v, h, k);
                ensures!(A::from_vertical(v) == A::tensor(v, <$ext>::ONE) && A::from_vertical(v).try_extract_vertical() == Some(v) && A::one() == A::tensor(<$ext>::ONE, <$ext>::ONE), "the vertical subring is the field");
                let u = A::tensor(v2, h2);
                let sum = t.clone() + &u;
                ensures!(A::tensor(v + v2, h) == A::tensor(v, h) + &A::tensor(v2, h) && sum.clone() - &u == t, "the tensor is bilinear");
                let fold = |a: &A| a.clone().transpose().elems.iter().zip(&coeffs).fold(<$ext>::ZERO, |x, (a, c)| x + *a * *c);
                ensures!(sum.clone().fold_vertical(&coeffs) == fold(&t) + fold(&u), "folding is linear");
                // fold of v ⊗ h: sum over the base coordinates of v of h * coefficient
                let direct = (0..d).fold(<$ext>::ZERO, |a, i| a + h * <$ext as ExtensionField<$base>>::get_base(&v, i) * coeffs[i]);
                ensures!(t.fold_vertical(&coeffs) == direct, "folding a tensor multiplies the coordinates of one factor", "{:?} {:?}", v, h);
                requires!(true);
                Ok(())
            }
        };
    }
    use binius_field::underlier::WithUnderlier;
    algebra!(a_1_8, BinaryField1b, BinaryField8b);
    algebra!(a_8_32, BinaryField8b, BinaryField32b);
    algebra!(a_8_128, BinaryField8b, BinaryField128b);
    algebra!(a_1_128, BinaryField1b, BinaryField128b);
    algebra!(a_64_128, BinaryField64b, BinaryField128b);
    pub fn register(r: &mut Runner) {
        super::obligations(r);
        let c = "make_oracle_commit_meta, CommitMeta, piop::{commit,prove,verify}, ring_switch::{prove,verify}, EvalClaimSystem";
        r.sampled("openings_cpu", c, 50, cpu);
        r.sampled("openings_fast", c, 50, fast);
        r.sampled("tensor_1_8", "TensorAlgebra", 2000, a_1_8);
        r.sampled("tensor_8_32", "TensorAlgebra", 2000, a_8_32);
        r.sampled("tensor_8_128", "TensorAlgebra", 1000, a_8_128);
        r.sampled("tensor_1_128", "TensorAlgebra", 200, a_1_128);
        r.sampled("tensor_64_128", "TensorAlgebra", 1000, a_64_128);
    }
}
