//! C09: FRI folding, queries and parameters.
use crate::rt::*;
use crate::spec::*;
use crate::{ensures, obligations};
use binius_field::*;
use binius_ntt::fri::{fold_chunk, fold_interleaved_chunk};
use binius_ntt::SingleThreadedNTT;

/// The polynomial that is 0 on the span of the first k basis elements and 1 on the next one.
fn van<F: Field>(basis: &[F], k: usize, x: F) -> F {
    let w = |x: F| {
        let mut r = F::ONE;
        for i in 0..1usize << k {
            let mut u = F::ZERO;
            for (b, v) in basis[..k].iter().enumerate() {
                if i >> b & 1 == 1 {
                    u += *v;
                }
            }
            r *= x - u;
        }
        r
    };
    w(x) * w(basis[k]).invert().unwrap()
}
/// The codeword of a message, at one position: sum of msg[j] times the j-th novel basis polynomial.
fn code_at<F: Field>(basis: &[F], msg: &[F], i: usize) -> F {
    let mut x = F::ZERO;
    for (b, v) in basis.iter().enumerate() {
        if i >> b & 1 == 1 {
            x += *v;
        }
    }
    let mut r = F::ZERO;
    for (j, &m) in msg.iter().enumerate() {
        let mut t = m;
        let mut k = 0;
        while j >> k != 0 {
            if j >> k & 1 == 1 {
                t *= van(basis, k, x);
            }
            k += 1;
        }
        r += t;
    }
    r
}
/// A chunk of any word is folded with one challenge to the value of the line through its two
/// coefficients.
fn one_fold<F: BinaryField + Fx + PackedField<Scalar = F>, const L: usize, const CHUNK: usize>(s: &mut impl Src) -> R {
    let ntt = SingleThreadedNTT::<F>::new(L).unwrap();
    let (a, b, r): (F, F, F) = (el(s), el(s), el(s));
    let mut v = [a, b];
    let got = fold_chunk::<F, F, _>(&ntt, L, CHUNK, &mut v, &[r]);
    // the pair (a, b) is (u + t v, u + (t + 1) v) for the line u + X v
    let basis: [F; L] = std::array::from_fn(|i| F::of(1 << i));
    let t = code_at(&basis, &[F::ZERO, F::ONE], 2 * CHUNK);
    let lv = F::NB.ilog2();
    let v = a.raw() ^ b.raw();
    let u = a.raw() ^ tmul_def(lv, t.raw(), v);
    let e = u ^ tmul_def(lv, r.raw(), u ^ v);
    ensures!(got.raw() == e, "folding a pair with one challenge");
    Ok(())
}
/// Folding the codeword of a message is the multilinear extension of the message at the challenge,
/// whatever the message and at every position of the code.
fn repetition<F: BinaryField + Fx + PackedField<Scalar = F>, const CHUNK: usize>(s: &mut impl Src) -> R {
    let ntt = SingleThreadedNTT::<F>::new(2).unwrap();
    let basis: [F; 2] = std::array::from_fn(|i| F::of(1 << i));
    let (a, b, r): (F, F, F) = (el(s), el(s), el(s));
    let lv = F::NB.ilog2();
    let mut v: [F; 2] = std::array::from_fn(|i| F::of(a.raw() ^ tmul_def(lv, code_at(&basis, &[F::ZERO, F::ONE], 2 * CHUNK + i).raw(), b.raw())));
    let got = fold_chunk::<F, F, _>(&ntt, 2, CHUNK, &mut v, &[r]);
    ensures!(got.raw() == a.raw() ^ tmul_def(lv, r.raw(), a.raw() ^ b.raw()), "a codeword folds to the value of its message");
    Ok(())
}
fn interleaved<F: BinaryField + Fx + PackedField<Scalar = F>, const CHUNK: usize>(s: &mut impl Src) -> R {
    let ntt = SingleThreadedNTT::<F>::new(2).unwrap();
    let v: [F; 4] = std::array::from_fn(|_| el(s));
    let t: [F; 2] = [el(s), el(s)];
    let r = F::of(s.word(1));
    let mut scratch = [F::ZERO; 2];
    let got = fold_interleaved_chunk::<F, F, F, _>(&ntt, 2, 1, CHUNK, &v, &t, &[r], &mut scratch);
    let lv = F::NB.ilog2();
    let m = |i: usize, j: usize| tmul_def(lv, v[i].raw(), t[j].raw());
    let mut pair = [F::of(m(0, 0) ^ m(1, 1)), F::of(m(2, 0) ^ m(3, 1))];
    ensures!(got == fold_chunk::<F, F, _>(&ntt, 2, CHUNK, &mut pair, &[r]), "an interleaved chunk folds its batch first");
    Ok(())
}
obligations! {
    one_fold_0, quick, 10, "any pair and challenge over GF(16), first chunk of a domain of 4", "fold_chunk, fold_pair", one_fold::<BinaryField4b, 2, 0>;
    one_fold_1, quick, 10, "any pair and challenge over GF(16), last chunk of a domain of 4", "fold_chunk, fold_pair", one_fold::<BinaryField4b, 2, 1>;
    repetition_0, quick, 10, "any message of 2 and challenge over GF(16)", "fold_chunk, fold_pair", repetition::<BinaryField4b, 0>;
    repetition_1, quick, 10, "any message of 2 and challenge over GF(16), second coset", "fold_chunk, fold_pair", repetition::<BinaryField4b, 1>;
    interleaved_1, quick, 10, "any interleaved chunk of 2 x 2 over GF(16)", "fold_interleaved_chunk", interleaved::<BinaryField4b, 1>;
}

#[cfg(not(kani))]
pub use native::register;
#[cfg(not(kani))]
mod native {
    use super::*;
    use crate::requires;
    use binius_compute::cpu::layer::CpuLayerHolder;
    use binius_compute::{ComputeData, ComputeHolder};
    use binius_core::fiat_shamir::{CanSample, CanSampleBits, HasherChallenger};
    use binius_core::merkle_tree::{BinaryMerkleTreeProver, MerkleTreeProver, MerkleTreeScheme};
    use binius_core::protocols::fri::{
        self, CommitOutput, FRIFolder, FRIParams, FRIVerifier, FoldRoundOutput, calculate_n_test_queries, estimate_optimal_arity,
    };
    use binius_core::reed_solomon::reed_solomon::ReedSolomonCode;
    use binius_core::transcript::{ProverTranscript, VerifierTranscript};
    use binius_fast_compute::layer::FastCpuLayerHolder;
    use binius_hash::groestl::{Groestl256, Groestl256ByteCompression};
    use binius_field::tower::CanonicalTowerFamily;
    use binius_ntt::{AdditiveNTT, NTTShape, fri::fold_interleaved};
    use digest::Output;

    type F = BinaryField128b;
    type Ch = HasherChallenger<Groestl256>;
    type MP = BinaryMerkleTreeProver<F, Groestl256, Groestl256ByteCompression>;

    fn vec_of<P: PackedField>(s: &mut NSrc, n: usize) -> Vec<P> {
        let mut rng = rng_of(s);
        (0..n).map(|_| P::random(&mut rng)).collect()
    }
    fn mle<F: Field>(v: &[F], r: &[F]) -> F {
        let mut v = v.to_vec();
        for &r in r {
            v = (0..v.len() / 2).map(|i| v[2 * i] + (v[2 * i + 1] - v[2 * i]) * r).collect();
        }
        v[0]
    }
    /// Fold of any word: the coefficients of its polynomial, folded and evaluated again.
    fn fold_word<F: BinaryField + ExtensionField<FS> + PackedExtension<FS>, FS: BinaryField>(ntt: &SingleThreadedNTT<FS>, ll: usize, lb: usize, w: &[F], c: &[F]) -> Vec<F> {
        let mut m: Vec<F> = (0..1 << ll).map(|i| mle(&w[i << lb..][..1 << lb], &c[..lb])).collect();
        let sh = |n: usize| NTTShape { log_y: n, ..Default::default() };
        ntt.inverse_transform_ext(&mut m, sh(ll), 0, 0, 0).unwrap();
        for &c in &c[lb..] {
            m = (0..m.len() / 2).map(|i| m[2 * i] + (m[2 * i + 1] - m[2 * i]) * c).collect();
        }
        ntt.forward_transform_ext(&mut m, sh(ll + lb - c.len()), 0, 0, 0).unwrap();
        m
    }
    struct Shape {
        dim: usize,
        rate: usize,
        batch: usize,
        ar: Vec<usize>,
        nq: usize,
    }
    fn shape(s: &mut NSrc, lw: usize) -> Result<Shape, Stop> {
        let (dim, rate, batch) = (s.range(0, 5), s.range(0, 2), s.range(0, 3));
        requires!(dim + batch >= lw && dim + batch > 0 && dim + rate > 0);
        let mut ar = vec![];
        let mut left = dim + batch - 1;
        while left > 0 && s.below(5) > 0 {
            let lo = if ar.is_empty() { batch.max(1) } else { 1 };
            if lo > left {
                break;
            }
            let a = s.range(lo, left.min(lo + 2));
            ar.push(a);
            left -= a;
        }
        Ok(Shape { dim, rate, batch, ar, nq: s.range(0, 4) })
    }
    fn params<FA: BinaryField>(h: &Shape) -> FRIParams<F, FA>
    where
        F: ExtensionField<FA>,
    {
        FRIParams::new(ReedSolomonCode::new(h.dim, h.rate).unwrap(), h.batch, h.ar.clone(), h.nq).unwrap()
    }
    type Dig = Output<Groestl256>;
    /// Everything the verifier reads, the challenges and the verdict.
    fn check<FA: BinaryField>(p: &FRIParams<F, FA>, mp: &MP, proof: Vec<u8>) -> Option<Result<(F, Vec<F>), ()>>
    where
        F: ExtensionField<FA>,
    {
        catches(|| {
            let mut t = VerifierTranscript::<Ch>::new(proof);
            let root: Dig = t.message().read().map_err(|_| ())?;
            let mut ch: Vec<F> = vec![];
            let mut roots: Vec<Dig> = vec![];
            for &a in p.fold_arities() {
                ch.extend(CanSample::<F>::sample_vec(&mut t, a));
                roots.push(t.message().read().map_err(|_| ())?);
            }
            ch.extend(CanSample::<F>::sample_vec(&mut t, p.n_final_challenges()));
            let v = FRIVerifier::new(p, mp.scheme(), &root, &roots, &ch).map_err(|_| ())?;
            let r = v.verify(&mut t).map_err(|_| ())?;
            t.finalize().map_err(|_| ())?;
            Ok((r, ch))
        })
    }
    trait Mk {
        type H: ComputeHolder<F, Self::L>;
        type L: binius_compute::ComputeLayer<F>;
        fn mk() -> Self::H;
    }
    struct Cpu;
    struct Fast;
    impl Mk for Cpu {
        type H = CpuLayerHolder<F>;
        type L = binius_compute::cpu::CpuLayer<F>;
        fn mk() -> Self::H {
            CpuLayerHolder::new(1 << 10, 1 << 14)
        }
    }
    impl Mk for Fast {
        type H = FastCpuLayerHolder<CanonicalTowerFamily, PackedBinaryField1x128b>;
        type L = binius_fast_compute::layer::FastCpuLayer<CanonicalTowerFamily, PackedBinaryField1x128b>;
        fn mk() -> Self::H {
            FastCpuLayerHolder::new(1 << 10, 1 << 14)
        }
    }
    fn honest<FA: BinaryField, P, M: Mk>(s: &mut NSrc, h: &Shape) -> Result<(Vec<u8>, Vec<F>, FRIParams<F, FA>), Stop>
    where
        F: ExtensionField<FA> + PackedExtension<FA>,
        P: PackedField<Scalar = F> + PackedExtension<FA>,
    {
        // a transform over the domain of the code or over one that contains it
        let extra = s.below(3).min(FA::N_BITS - h.dim - h.rate);
        let ntt = SingleThreadedNTT::<FA>::new(h.dim + h.rate + extra).unwrap();
        let code = ReedSolomonCode::with_ntt_subspace(&ntt, h.dim, h.rate).unwrap();
        let p = FRIParams::<F, FA>::new(code, h.batch, h.ar.clone(), h.nq).unwrap();
        let mp = MP::new(Groestl256ByteCompression);
        let msg: Vec<P> = vec_of(s, 1 << (h.dim + h.batch - P::LOG_WIDTH));
        let CommitOutput { commitment, committed, codeword } = fri::commit_interleaved(p.rs_code(), &p, &ntt, &mp, &msg).unwrap();
        let sc: Vec<F> = PackedField::iter_slice(&msg).collect();
        let mut hold = M::mk();
        let ComputeData { hal, dev_alloc, .. } = hold.to_data();
        let mut f = FRIFolder::new(hal, &p, &ntt, &mp, &codeword, &committed).unwrap();
        let mut t = ProverTranscript::<Ch>::new();
        t.message().write(&commitment);
        let mut ch = vec![];
        let mut roots = vec![];
        let mut done = 0;
        let mut word: Vec<F> = PackedField::iter_slice(&codeword).collect();
        for round in 1..=p.n_fold_rounds() {
            let r: F = t.sample();
            ch.push(r);
            ensures!(f.curr_round() == round - 1, "the folder counts its rounds");
            let o = f.execute_fold_round(&dev_alloc, r).unwrap();
            let due = h.ar.iter().scan(0, |a, x| { *a += x; Some(*a) }).any(|x| x == round);
            match o {
                FoldRoundOutput::NoCommitment => ensures!(!due, "the folder commits after every arity", "{round} {:?}", h.ar),
                FoldRoundOutput::Commitment(c) => {
                    ensures!(due, "the folder commits only after an arity", "{round} {:?}", h.ar);
                    let lb = if done == 0 { h.batch } else { 0 };
                    let ll = h.dim + h.rate + h.batch - lb - if done == 0 { 0 } else { done - h.batch };
                    word = fold_word::<F, FA>(&ntt, if done == 0 { h.dim + h.rate } else { ll - h.batch }, lb, &word, &ch[done..]);
                    done = round;
                    let next = h.ar.get(roots.len() + 1).copied().unwrap_or(p.n_final_challenges());
                    let (want, _) = mp.commit(&word, 1 << next).unwrap();
                    ensures!(want.root == c, "the folder commits to the folded codeword", "{round} {:?}", h.ar);
                    t.message().write(&c);
                    roots.push(c);
                }
            }
        }
        f.finish_proof(&mut t).unwrap();
        let bytes = t.finalize();
        let v = check(&p, &mp, bytes.clone());
        let want = mle(&sc, &ch);
        ensures!(v == Some(Ok((want, ch))), "an honest proof verifies to the value of the message at the challenges", "{} {} {} {:?} {}", h.dim, h.rate, h.batch, h.ar, h.nq);
        Ok((bytes, sc, p))
    }
    fn complete<FA: BinaryField, P, M: Mk>(s: &mut NSrc) -> R
    where
        F: ExtensionField<FA> + PackedExtension<FA>,
        P: PackedField<Scalar = F> + PackedExtension<FA>,
    {
        let h = shape(s, P::LOG_WIDTH)?;
        honest::<FA, P, M>(s, &h)?;
        Ok(())
    }
    /// Every altered, removed or appended byte makes the verification an error.
    fn tampered<FA: BinaryField>(s: &mut NSrc) -> R
    where
        F: ExtensionField<FA> + PackedExtension<FA>,
        PackedBinaryField1x128b: PackedExtension<FA>,
    {
        let mut h = shape(s, 0)?;
        requires!(h.dim + h.batch <= 4);
        h.nq = s.range(1, 2);
        let (bytes, _, p) = honest::<FA, PackedBinaryField1x128b, Cpu>(s, &h)?;
        let mp = MP::new(Groestl256ByteCompression);
        for i in (s.below(8)..bytes.len()).step_by(7) {
            let mut b = bytes.clone();
            b[i] ^= 1 << s.below(8);
            let v = check(&p, &mp, b);
            // a changed byte may lead to a claim about another message only by breaking a commitment
            ensures!(v == Some(Err(())), "a proof with an altered byte is an error", "byte {i} of {} {:?}", bytes.len(), h.ar);
        }
        let n = s.below(bytes.len());
        ensures!(check(&p, &mp, bytes[..n].to_vec()) == Some(Err(())), "a truncated proof is an error", "{n}");
        let mut b = bytes.clone();
        b.push(s.u8());
        ensures!(check(&p, &mp, b) == Some(Err(())), "an extended proof is an error");
        Ok(())
    }
    /// A prover with arbitrary oracles: verdict and value are those of the definition.
    fn game<FA: BinaryField>(s: &mut NSrc) -> R
    where
        F: ExtensionField<FA> + PackedExtension<FA>,
    {
        let mut h = shape(s, 0)?;
        h.nq = s.range(0, 6);
        let p = params::<FA>(&h);
        let mp = MP::new(Groestl256ByteCompression);
        let ntt = SingleThreadedNTT::<FA>::new(h.dim + h.rate).unwrap();
        let ll = h.dim + h.rate;
        // an interleaved codeword
        let msg: Vec<F> = vec_of(s, 1 << (h.dim + h.batch));
        let mut word = vec![F::ZERO; 1 << (ll + h.batch)];
        for j in 0..1usize << h.batch {
            let mut c: Vec<F> = (0..1usize << ll).map(|i| if i < 1 << h.dim { msg[i << h.batch | j] } else { F::ZERO }).collect();
            ntt.forward_transform_ext(&mut c, NTTShape { log_y: ll, ..Default::default() }, 0, 0, 0).unwrap();
            for (i, v) in c.into_iter().enumerate() {
                word[i << h.batch | j] = v;
            }
        }
        let spoil = |s: &mut NSrc, w: &mut Vec<F>| -> R {
            match s.below(6) {
                0 => {
                    let i = s.below(w.len());
                    w[i] += F::ONE;
                }
                1 => {
                    let k = vec_of::<F>(s, 1)[0];
                    w.iter_mut().for_each(|x| *x += k);
                }
                2 => {
                    for _ in 0..w.len().div_ceil(4) {
                        let i = s.below(w.len());
                        w[i] = vec_of::<F>(s, 1)[0];
                    }
                }
                _ => {}
            }
            Ok(())
        };
        spoil(s, &mut word)?;
        let mut t = ProverTranscript::<Ch>::new();
        let mut words = vec![word];
        let coset = |k: usize| h.ar.get(k).copied().unwrap_or(p.n_final_challenges());
        let c0 = if h.ar.is_empty() { h.dim + h.batch } else { h.ar[0] };
        let (c, tree) = mp.commit(&words[0], 1 << c0).unwrap();
        t.message().write(&c.root);
        let mut trees = vec![tree];
        let mut ch: Vec<F> = vec![];
        let mut folds: Vec<Vec<F>> = vec![];
        let mut len = ll;
        for (k, &a) in h.ar.iter().enumerate() {
            let r: Vec<F> = CanSample::<F>::sample_vec(&mut t, a);
            let lb = if k == 0 { h.batch } else { 0 };
            let f = fold_word::<F, FA>(&ntt, len, lb, &words[k], &r);
            len = len + lb - a;
            ch.extend(r);
            let mut w = f.clone();
            folds.push(f);
            spoil(s, &mut w)?;
            let (c, tree) = mp.commit(&w, 1 << coset(k + 1)).unwrap();
            t.message().write(&c.root);
            trees.push(tree);
            words.push(w);
        }
        let last: Vec<F> = CanSample::<F>::sample_vec(&mut t, p.n_final_challenges());
        let lb = if h.ar.is_empty() { h.batch } else { 0 };
        let fin = fold_word::<F, FA>(&ntt, len, lb, words.last().unwrap(), &last);
        ch.extend(last);
        let mut good = fin.iter().all(|x| *x == fin[0]);
        t.decommitment().write_scalar_slice(words.last().unwrap());
        let mut depth = ll + h.batch;
        let mut depths = vec![];
        for (k, &a) in h.ar.iter().enumerate() {
            depth -= a;
            let d = mp.scheme().optimal_verify_layer(h.nq, depth);
            depths.push(d);
            t.decommitment().write_slice(mp.layer(&trees[k], d).unwrap());
        }
        for _ in 0..h.nq {
            let bits = h.ar.first().map_or(0, |a| ll + h.batch - a);
            let mut i = t.sample_bits(bits) as usize;
            for (k, &a) in h.ar.iter().enumerate() {
                t.decommitment().write_scalar_slice(&words[k][i << a..(i + 1) << a]);
                mp.prove_opening(&trees[k], depths[k], i, &mut t.decommitment()).unwrap();
                good &= folds[k][i] == words[k + 1][i];
                i >>= h.ar.get(k + 1).copied().unwrap_or(0);
            }
        }
        let v = check(&p, &mp, t.finalize());
        let want = if good { Ok((fin[0], ch)) } else { Err(()) };
        ensures!(v == Some(want), "a proof is accepted exactly when the openings fold consistently", "{} {} {} {:?} {} good={good} {:?}", h.dim, h.rate, h.batch, h.ar, h.nq, v.clone().map(|x| x.is_ok()));
        Ok(())
    }
    /// A query whose opened values are replaced (with the tree of the replaced word) is caught by
    /// the fold check of that very query.
    fn folds<FA: BinaryField + Fx, P>(s: &mut NSrc) -> R
    where
        F: ExtensionField<FA> + PackedExtension<FA>,
        P: PackedField<Scalar = F>,
    {
        let dom = 6;
        let ntt = SingleThreadedNTT::<FA>::new(dom).unwrap();
        let (ll, lb) = (s.range(0, dom), s.range(0, 3));
        let n = s.below(ll + 1);
        requires!(ll + lb >= P::LOG_WIDTH);
        let w: Vec<P> = vec_of(s, 1 << (ll + lb - P::LOG_WIDTH));
        let ws: Vec<F> = PackedField::iter_slice(&w).collect();
        let c: Vec<F> = vec_of(s, lb + n);
        let e = fold_word::<F, FA>(&ntt, ll, lb, &ws, &c);
        ensures!(fold_interleaved(&ntt, &w, &c, ll, lb) == e, "folding a codeword", "{ll} {lb} {n} {}", P::WIDTH);
        let i = s.below(1 << (ll - n));
        let chunk = &ws[i << (lb + n)..(i + 1) << (lb + n)];
        let mut tensor = vec![F::ONE];
        for &r in &c[..lb] {
            tensor = tensor.iter().map(|t| *t * (F::ONE - r)).chain(tensor.iter().map(|t| *t * r)).collect();
        }
        let extra = s.below(3);
        let mut scratch: Vec<F> = vec_of(s, (1 << n) + extra);
        ensures!(fold_interleaved_chunk(&ntt, ll, lb, i, chunk, &tensor, &c[lb..], &mut scratch) == e[i], "folding one chunk of a codeword", "{ll} {lb} {n} {i}");
        if lb == 0 {
            ensures!(fold_chunk(&ntt, ll, i, &mut chunk.to_vec(), &c) == e[i], "folding one coset", "{ll} {n} {i}");
        }
        Ok(())
    }
    fn construct<FA: BinaryField>(s: &mut NSrc) -> R
    where
        F: ExtensionField<FA>,
    {
        let (dim, rate, batch, nq) = (s.range(0, 5), s.range(0, 2), s.range(0, 3), s.range(0, 5));
        requires!(dim + rate > 0);
        let ar: Vec<usize> = (0..s.below(5)).map(|_| s.range(0, 4)).collect();
        let p = FRIParams::<F, FA>::new(ReedSolomonCode::new(dim, rate).unwrap(), batch, ar.clone(), nq);
        let sum: usize = ar.iter().sum();
        let fits = sum < dim + batch && ar.first().is_none_or(|a| *a >= batch) && ar.iter().all(|a| *a > 0);
        ensures!(p.is_ok() == fits, "parameters exist exactly for arities that the protocol can run", "{dim} {batch} {ar:?}");
        if let Ok(p) = p {
            ensures!(
                p.n_fold_rounds() == dim + batch && p.n_oracles() == ar.len() && p.fold_arities() == ar && p.n_test_queries() == nq && p.log_batch_size() == batch,
                "the parameters are those given"
            );
            ensures!(p.n_final_challenges() + sum == dim + batch && p.log_len() == dim + rate + batch, "the rounds add up");
            ensures!(p.index_bits() == if ar.is_empty() { 0 } else { dim + rate + batch - ar[0] }, "query indices name the cosets of the first oracle");
            let mp = MP::new(Groestl256ByteCompression);
            let root = Dig::default();
            for (nr, nc) in [(ar.len(), dim + batch), (ar.len() + 1, dim + batch), (ar.len(), dim + batch + 1), (ar.len(), dim + batch - 1), (ar.len().wrapping_sub(1), dim + batch)] {
                if nr > 20 {
                    continue;
                }
                let (roots, ch) = (vec![root; nr], vec![F::ONE; nc]);
                let v = catches(|| FRIVerifier::new(&p, mp.scheme(), &root, &roots, &ch).is_ok());
                ensures!(v == Some(nr == ar.len() && nc == dim + batch), "the verifier takes one commitment per oracle and one challenge per round", "{nr} {nc}");
            }
        }
        Ok(())
    }
    fn queries<FA: BinaryField>(s: &mut NSrc) -> R
    where
        F: ExtensionField<FA>,
    {
        let sec = s.range(1, 130);
        let (dim, rate) = (s.range(0, 14), s.range(0, 4));
        requires!(dim + rate <= FA::N_BITS && dim + rate > 0);
        let code = ReedSolomonCode::<FA>::new(dim, rate).unwrap();
        let got = catches(|| calculate_n_test_queries::<F, FA>(sec, &code));
        ensures!(got.is_some(), "the number of queries never panics");
        let size = 2f64.powi(128);
        let err = 2.0 * dim as f64 / size + 2f64.powi((dim + rate) as i32) / size;
        let left = 2f64.powi(-(sec as i32)) - err;
        let per = (1.0 + 2f64.powi(-(rate as i32))) / 2.0;
        match got.unwrap() {
            Ok(n) => {
                ensures!(per < 1.0 && left > 0.0, "no number of queries reaches this security", "{sec} {dim} {rate} -> {n}");
                // compare logarithms with slack for rounding
                let (need, lp) = (-left.log2(), -per.log2());
                ensures!(n as f64 * lp >= need - 1e-6, "the number of queries reaches the security", "{sec} {dim} {rate} -> {n}");
                ensures!(n == 0 || (n - 1) as f64 * lp <= need + 1e-6, "no smaller number of queries reaches the security", "{sec} {dim} {rate} -> {n}");
            }
            Err(_) => ensures!(per >= 1.0 || left <= 0.0, "the security is attainable", "{sec} {dim} {rate}"),
        }
        Ok(())
    }
    fn constant<FA: BinaryField>(s: &mut NSrc) -> R
    where
        F: ExtensionField<FA>,
    {
        let ntt = SingleThreadedNTT::<FA>::new(12).unwrap();
        let (n, sec, rate, a) = (s.range(0, 12), s.range(1, 110), s.range(0, 3), s.range(1, 6));
        requires!(n.saturating_sub(a) + rate > 0);
        let p = catches(|| FRIParams::<F, FA>::choose_with_constant_fold_arity(&ntt, n, sec, rate, a));
        ensures!(p.is_some(), "choosing parameters never panics", "{n} {sec} {rate} {a}");
        let dim = n.saturating_sub(a);
        match p.unwrap() {
            Ok(p) => {
                let sum: usize = p.fold_arities().iter().sum();
                ensures!(p.fold_arities().iter().all(|x| *x == a), "the arities are constant");
                ensures!(p.n_fold_rounds() == n && sum + p.n_final_challenges() == n, "the folds add up to the message", "{n} {a}");
                ensures!(p.rs_code().log_inv_rate() == rate && p.rs_code().log_dim() + p.log_batch_size() == n, "the code is the one asked for");
                let nq = calculate_n_test_queries::<F, FA>(sec, p.rs_code()).unwrap();
                ensures!(p.n_test_queries() == nq, "as many queries as the security asks for");
                if sum > 0 {
                    let cap = usize::BITS - nq.saturating_sub(1).leading_zeros();
                    ensures!(n + rate - sum >= cap as usize, "the last codeword is at least as long as the Merkle cap", "{n} {sec} {rate} {a}");
                    ensures!(n + rate < cap as usize + sum + a || sum + a > n, "folding stops as late as it can", "{n} {sec} {rate} {a}");
                }
                let code = ReedSolomonCode::<FA>::with_ntt_subspace(&ntt, dim, rate).unwrap();
                ensures!(p.rs_code().subspace() == code.subspace(), "the code lives on the domain of the transform");
            }
            Err(e) => {
                let too_big = dim + rate > 12 || rate == 0;
                let full = matches!(e, fri::Error::InvalidFoldAritySequence);
                let nq = ReedSolomonCode::<FA>::with_ntt_subspace(&ntt, dim, rate).ok().and_then(|c| calculate_n_test_queries::<F, FA>(sec, &c).ok());
                ensures!(too_big || nq.is_none() || (full && (n == 0 || n % a == 0)), "parameters that exist are found", "{n} {sec} {rate} {a} {e}");
            }
        }
        Ok(())
    }
    fn arity(s: &mut NSrc) -> R {
        let (n, d, f) = (s.range(0, 32), s.range(1, 2048), s.range(1, 512));
        let a = catches(|| estimate_optimal_arity(n, d, f));
        let cost = |a: usize| ((n / 2) * d + (1usize << a) * f) * (n - a) / a;
        match a {
            None => ensures!(false, "estimating an arity never panics", "{n} {d} {f}"),
            Some(a) => {
                ensures!(a >= 1 && a <= n.max(1), "the arity is at most the length", "{n} {d} {f} {a}");
                if n > 0 {
                    ensures!((1..a).all(|k| cost(k + 1) <= cost(k)) && (a == n || cost(a + 1) > cost(a)), "the arity is where the proof stops getting smaller", "{n} {d} {f} {a}");
                }
            }
        }
        Ok(())
    }
    fn misuse(s: &mut NSrc) -> R {
        type FA = BinaryField16b;
        let h = shape(s, 0)?;
        let p = params::<FA>(&h);
        let mp = MP::new(Groestl256ByteCompression);
        let ntt = SingleThreadedNTT::<FA>::new(h.dim + h.rate).unwrap();
        let n = 1usize << (h.dim + h.batch);
        let msg: Vec<PackedBinaryField1x128b> = vec_of(s, n);
        let nb = [n + 1, n - 1, n * 2][s.below(3)];
        let bad: Vec<PackedBinaryField1x128b> = vec_of(s, nb);
        ensures!(catches(|| fri::commit_interleaved(p.rs_code(), &p, &ntt, &mp, &bad).is_err()) == Some(true), "a message of the wrong length is an error");
        let o = fri::commit_interleaved(p.rs_code(), &p, &ntt, &mp, &msg).unwrap();
        let mut hold = Cpu::mk();
        let ComputeData { hal, dev_alloc, .. } = hold.to_data();
        let short = &o.codeword[..o.codeword.len() / 2];
        ensures!(FRIFolder::new(hal, &p, &ntt, &mp, short, &o.committed).is_err(), "a codeword that is too short is an error");
        let mut f = FRIFolder::new(hal, &p, &ntt, &mp, &o.codeword, &o.committed).unwrap();
        let k = s.below(p.n_fold_rounds());
        for _ in 0..k {
            f.execute_fold_round(&dev_alloc, F::ONE).unwrap();
        }
        ensures!(f.n_rounds() == h.dim + h.batch && f.curr_round() == k, "the folder counts its rounds");
        ensures!(f.finalize().is_err(), "finishing before the last round is an error", "{k}");
        Ok(())
    }
    pub fn register(r: &mut Runner) {
        super::obligations(r);
        r.sampled("complete_16_cpu", "commit_interleaved, FRIFolder, FRIVerifier", 300, complete::<BinaryField16b, PackedBinaryField1x128b, Cpu>);
        r.sampled("complete_16_fast", "commit_interleaved, FRIFolder, FRIVerifier", 300, complete::<BinaryField16b, PackedBinaryField1x128b, Fast>);
        r.sampled("complete_32_cpu_2x", "commit_interleaved, FRIFolder, FRIVerifier", 300, complete::<BinaryField32b, PackedBinaryField2x128b, Cpu>);
        r.sampled("complete_8_fast_4x", "commit_interleaved, FRIFolder, FRIVerifier", 300, complete::<BinaryField8b, PackedBinaryField4x128b, Fast>);
        r.sampled("tampered_16", "FRIVerifier::verify", 40, tampered::<BinaryField16b>);
        r.sampled("game_16", "FRIVerifier::verify, verify_last_oracle, verify_query", 1500, game::<BinaryField16b>);
        r.sampled("game_32", "FRIVerifier::verify, verify_last_oracle, verify_query", 1500, game::<BinaryField32b>);
        r.sampled("folds_1x", "fold_interleaved, fold_interleaved_chunk, fold_chunk", 1000, folds::<BinaryField16b, PackedBinaryField1x128b>);
        r.sampled("folds_2x", "fold_interleaved, fold_interleaved_chunk, fold_chunk", 1000, folds::<BinaryField32b, PackedBinaryField2x128b>);
        r.sampled("folds_4x", "fold_interleaved, fold_interleaved_chunk, fold_chunk", 1000, folds::<BinaryField8b, PackedBinaryField4x128b>);
        r.sampled("construct", "FRIParams::new and getters, FRIVerifier::new", 2000, construct::<BinaryField32b>);
        r.sampled("queries_32", "calculate_n_test_queries", 3000, queries::<BinaryField32b>);
        r.sampled("queries_64", "calculate_n_test_queries", 3000, queries::<BinaryField64b>);
        r.sampled("constant", "FRIParams::choose_with_constant_fold_arity", 3000, constant::<BinaryField32b>);
        r.sampled("arity", "estimate_optimal_arity", 5000, arity);
        r.sampled("misuse", "commit_interleaved, FRIFolder::{new,finalize}", 200, misuse);
    }
}
