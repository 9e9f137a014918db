//! C07: Merkle tree commitments.
use crate::rt::*;
use crate::toy::{Toy, ToyComp, toy_compress};
use crate::{ensures, obligations};
use binius_core::fiat_shamir::HasherChallenger;
use binius_core::merkle_tree::{BinaryMerkleTreeScheme, MerkleTreeScheme};
use binius_core::transcript::VerifierTranscript;
use binius_field::*;
use digest::Output;

fn dig(s: &mut impl Src) -> [u8; 2] {
    [s.u8(), s.u8()]
}
fn toy_scheme() -> BinaryMerkleTreeScheme<BinaryField8b, Toy, ToyComp> {
    BinaryMerkleTreeScheme::new(ToyComp)
}
fn toy_layer<const D: usize, const N: usize>(s: &mut impl Src) -> R {
    let mut l = [[0u8; 2]; N];
    for x in l.iter_mut() {
        *x = dig(s);
    }
    let root = dig(s);
    let mut f = l;
    let mut n = N;
    while n > 1 {
        for i in 0..n / 2 {
            f[i] = toy_compress(f[2 * i], f[2 * i + 1]);
        }
        n /= 2;
    }
    let digests: [Output<Toy>; N] = l.map(|x| x.into());
    let ok = toy_scheme().verify_layer(&root.into(), D, &digests).is_ok();
    ensures!(ok == (f[0] == root), "a layer is accepted exactly when its tree has the committed root");
    ensures!(toy_scheme().verify_layer(&root.into(), D + 1, &digests).is_err(), "a layer of the wrong length is an error");
    Ok(())
}
fn toy_opening<const TREE: usize, const LAYER: usize, const CAP: usize>(s: &mut impl Src) -> R {
    let vals = [BinaryField8b::new(s.u8()), BinaryField8b::new(s.u8())];
    let index = s.below(1 << TREE);
    let mut caps = [[0u8; 2]; CAP];
    for x in caps.iter_mut() {
        *x = dig(s);
    }
    let mut path = [[0u8; 2]; 3];
    let mut bytes = vec![];
    for p in path.iter_mut().take(TREE - LAYER) {
        *p = dig(s);
        bytes.push(p[0]);
        bytes.push(p[1]);
    }
    let mut h = Toy::default();
    h.byte(vals[0].val());
    h.byte(vals[1].val());
    let mut d = h.0.to_le_bytes();
    let mut i = index;
    for p in path.iter().take(TREE - LAYER) {
        d = if i & 1 == 0 { toy_compress(d, *p) } else { toy_compress(*p, d) };
        i >>= 1;
    }
    let want = d == caps[i];
    let digests: [Output<Toy>; CAP] = caps.map(|x| x.into());
    // dropping an unfinished transcript only logs
    let mut t = std::mem::ManuallyDrop::new(VerifierTranscript::<HasherChallenger<Toy>>::new(bytes));
    let got = toy_scheme().verify_opening(index, &vals, LAYER, TREE, &digests, &mut t.decommitment()).is_ok();
    ensures!(got == want, "an opening is accepted exactly when its path leads to the committed digest");
    Ok(())
}
fn toy_sizes(s: &mut impl Src) -> R {
    let sc = toy_scheme();
    let log_len = s.below(40);
    let layer = s.below(42);
    let q = s.below(1 << 16);
    let r = MerkleTreeScheme::<BinaryField8b>::proof_size(&sc, 1 << log_len, q, layer);
    ensures!(r.is_ok() == (layer <= log_len), "proof size is defined exactly for existing layers");
    if let Ok(n) = r {
        ensures!(n == 2 * (q * (log_len - layer) + (1 << layer)), "proof size counts the branch nodes of every query and the layer");
    }
    let len = s.below(1 << 20);
    if !len.is_power_of_two() {
        ensures!(MerkleTreeScheme::<BinaryField8b>::proof_size(&sc, len, q, 0).is_err(), "lengths have to be powers of two");
    }
    let o = MerkleTreeScheme::<BinaryField8b>::optimal_verify_layer(&sc, q, log_len);
    ensures!(o <= log_len, "the layer to verify exists");
    ensures!(q == 0 || o == log_len || (1usize << o >= q && (o == 0 || 1usize << (o - 1) < q)), "the layer to verify has as many nodes as there are queries");
    Ok(())
}

#[cfg(not(kani))]
pub use nat::register;
#[cfg(not(kani))]
mod nat {
    use super::*;
    use crate::spec::Fx;
    use binius_core::fiat_shamir::CanSample;
    use binius_core::merkle_tree::{BinaryMerkleTreeProver, MerkleTreeProver};
    use binius_core::transcript::ProverTranscript;
    use binius_hash::multi_digest::ParallelDigest;
    use binius_hash::{PseudoCompressionFunction, Vision32Compression, VisionHasherDigest, VisionHasherDigestByteSliced, multi_digest::ParallelMultidigestImpl, groestl::{Groestl256, Groestl256ByteCompression, Groestl256Parallel}, sha2::Sha256Compression};
    use binius_maybe_rayon::prelude::*;
    use binius_utils::{SerializationMode, SerializeBytes};
    use digest::{Digest, FixedOutputReset, core_api::BlockSizeUser};

    type Ch = HasherChallenger<Groestl256>;

    struct Setup<F, H: ParallelDigest, C> {
        prover: BinaryMerkleTreeProver<F, H, C>,
        comp: C,
    }
    fn leaf_digest<F: TowerField, D: Digest>(v: &[F]) -> Output<D> {
        let mut b = vec![];
        for x in v {
            x.serialize(&mut b, SerializationMode::CanonicalTower).unwrap();
        }
        D::digest(&b)
    }
    fn tree<F, H, C>(s: &mut NSrc) -> R
    where
        F: TowerField + Fx,
        H: ParallelDigest<Digest: BlockSizeUser + FixedOutputReset + Digest + Clone + Sync + Send> + Sync,
        C: PseudoCompressionFunction<Output<H::Digest>, 2> + Sync + Default,
        Output<H::Digest>: Copy,
    {
        let st = Setup::<F, H, C> { prover: BinaryMerkleTreeProver::new(C::default()), comp: C::default() };
        let log_len = s.below(5);
        let len = 1usize << log_len;
        let bound = if s.below(6) == 0 { 40 } else { 5 };
        let batch = 1 + s.below(bound);
        let data: Vec<F> = (0..len * batch).map(|_| F::of(s.word(F::NB))).collect();
        let committed = st.prover.commit(&data, batch);
        ensures!(committed.is_ok(), "a power-of-two number of leaves is committed");
        let (c, t) = committed.unwrap();
        // definition
        let mut layers: Vec<Vec<Output<H::Digest>>> = vec![data.chunks(batch).map(|v| leaf_digest::<F, H::Digest>(v)).collect()];
        while layers.last().unwrap().len() > 1 {
            let p = layers.last().unwrap();
            layers.push(p.chunks(2).map(|x| st.comp.compress([x[0], x[1]])).collect());
        }
        layers.reverse();
        ensures!(c.root == layers[0][0] && c.depth == log_len, "the commitment is the root of the hash tree", "log_len {log_len} batch {batch}");
        for (d, l) in layers.iter().enumerate() {
            ensures!(st.prover.layer(&t, d).ok() == Some(&l[..]), "layers are the nodes of the hash tree", "depth {d}");
            let sc = st.prover.scheme();
            ensures!(sc.verify_layer(&c.root, d, l).is_ok(), "an honest layer verifies");
            // tampering
            let k = s.below(l.len());
            let mut bad = l.clone();
            let byte = s.below(bad[k].len());
            bad[k][byte] ^= 1 << s.below(8);
            ensures!(sc.verify_layer(&c.root, d, &bad).is_err(), "a changed layer is rejected");
            if l.len() > 1 && l[k] != l[k ^ 1] {
                let mut sw = l.clone();
                sw.swap(k, k ^ 1);
                ensures!(sc.verify_layer(&c.root, d, &sw).is_err(), "a layer with exchanged nodes is rejected");
            }
            ensures!(sc.verify_layer(&c.root, d + 1, l).is_err() && sc.verify_layer(&c.root, d, &l[..l.len() - 1]).is_err(), "a layer of the wrong length is an error");
        }
        ensures!(st.prover.layer(&t, log_len + 1).is_err(), "a layer that does not exist is an error");
        let sc = st.prover.scheme();
        ensures!(sc.verify_vector(&c.root, &data, batch).is_ok(), "the committed vector verifies");
        let k = s.below(data.len());
        let mut bad = data.clone();
        bad[k] += F::of(1 << s.below(F::NB as usize));
        ensures!(sc.verify_vector(&c.root, &bad, batch).is_err(), "a changed vector is rejected", "element {k}");
        ensures!(sc.verify_vector(&c.root, &data, 0).is_err(), "a batch size of zero is an error");
        if batch > 1 && data.len() % (batch - 1) != 0 {
            ensures!(sc.verify_vector(&c.root, &data, batch - 1).is_err(), "a batch size that does not divide the length is an error");
        }
        // same tree from an iterator
        let it = st.prover.commit_iterated(data.par_chunks(batch).map(|c| c.to_vec()), log_len);
        ensures!(matches!(&it, Ok((cc, _)) if cc.root == c.root && cc.depth == c.depth), "committing from an iterator gives the same commitment");
        // openings
        let layer = s.below(log_len + 1);
        let index = s.below(len);
        let values = &data[index * batch..(index + 1) * batch];
        let caps = &layers[layer];
        let mut p = ProverTranscript::<Ch>::new();
        let deco = s.bool();
        let pr = if deco { st.prover.prove_opening(&t, layer, index, &mut p.decommitment()) } else { st.prover.prove_opening(&t, layer, index, &mut p.message()) };
        ensures!(pr.is_ok(), "an existing entry can be opened");
        ensures!(st.prover.prove_opening(&t, layer, len + s.below(3), &mut ProverTranscript::<Ch>::new().message()).is_err(), "opening an entry out of range is an error");
        ensures!(st.prover.prove_opening(&t, log_len + 1, index, &mut ProverTranscript::<Ch>::new().message()).is_err(), "opening at a layer that does not exist is an error");
        let proof = p.finalize();
        let ds = <H::Digest as Digest>::output_size();
        ensures!(proof.len() == (log_len - layer) * ds, "an opening consists of the branch nodes");
        ensures!(MerkleTreeScheme::<F>::proof_size(sc, len, 1, layer).ok() == Some(proof.len() + caps.len() * ds), "the declared proof size is the number of bytes of an opening and its layer");
        let verify = |proof: &[u8], index: usize, values: &[F], layer: usize, depth: usize, caps: &[Output<H::Digest>]| -> (bool, bool) {
            let mut v = VerifierTranscript::<Ch>::new(proof.to_vec());
            let ok = if deco { sc.verify_opening(index, values, layer, depth, caps, &mut v.decommitment()) } else { sc.verify_opening(index, values, layer, depth, caps, &mut v.message()) }.is_ok();
            (ok, v.finalize().is_ok())
        };
        // what acceptance means: recompute the path
        let recompute = |proof: &[u8], index: usize, values: &[F], layer: usize, depth: usize, caps: &[Output<H::Digest>]| -> bool {
            if index >= 1 << depth || layer > depth || caps.len() != 1 << layer || proof.len() < (depth - layer) * ds {
                return false;
            }
            let mut d = leaf_digest::<F, H::Digest>(values);
            let mut i = index;
            for b in proof.chunks(ds).take(depth - layer) {
                let b = Output::<H::Digest>::clone_from_slice(b);
                d = st.comp.compress(if i & 1 == 0 { [d, b] } else { [b, d] });
                i >>= 1;
            }
            d == caps[i]
        };
        ensures!(verify(&proof, index, values, layer, log_len, caps) == (true, true), "an honest opening verifies and is consumed", "log_len {log_len} layer {layer} index {index}");
        for case in 0..8 {
            let (mut pf, mut ix, mut vs, mut ly, mut dp, mut cp) = (proof.clone(), index, values.to_vec(), layer, log_len, caps.clone());
            match case {
                0 if !pf.is_empty() => {
                    let k = s.below(pf.len());
                    pf[k] ^= 1 << s.below(8);
                }
                1 => ix = s.below(2 * len),
                2 => {
                    let k = s.below(vs.len());
                    vs[k] += F::of(1 << s.below(F::NB as usize));
                }
                3 => drop(pf.pop()),
                4 => ly = s.below(log_len + 3),
                5 => dp = s.below(log_len + 3),
                6 => {
                    let k = s.below(cp.len());
                    let byte = s.below(ds);
                    cp[k][byte] ^= 1 << s.below(8);
                }
                _ => {
                    vs.push(F::of(s.word(F::NB)));
                }
            }
            let got = verify(&pf, ix, &vs, ly, dp, &cp).0;
            let want = recompute(&pf, ix, &vs, ly, dp, &cp);
            ensures!(got == want, "an opening is accepted exactly when its path leads to the committed digest", "case {case} log_len {log_len} layer {layer} index {index} -> {ix} {ly} {dp}");
        }
        // invalid inputs
        ensures!(st.prover.commit(&data, 0).is_err(), "a batch size of zero is an error");
        let n = 1 + s.below(20);
        let other: Vec<F> = (0..n).map(|_| F::of(s.word(F::NB))).collect();
        let b = 1 + s.below(6);
        ensures!(st.prover.commit(&other, b).is_ok() == (n % b == 0 && (n / b).is_power_of_two()), "vectors are committed exactly when they split into a power-of-two number of leaves");
        Ok(())
    }
    /// A whole query phase through transcripts: the prover's and the verifier's sides stay in step.
    fn session(s: &mut NSrc) -> R {
        type H = Groestl256;
        let pr = BinaryMerkleTreeProver::<BinaryField16b, H, Groestl256ByteCompression>::new(Groestl256ByteCompression);
        let log_len = 1 + s.below(5);
        let data: Vec<BinaryField16b> = (0..2usize << log_len).map(|_| Fx::of(s.word(16))).collect();
        let (c, t) = pr.commit(&data, 2).unwrap();
        let nq = 1 + s.below(9);
        let layer = pr.scheme().optimal_verify_layer(nq, log_len);
        let mut p = ProverTranscript::<Ch>::new();
        p.message().write(&c.root);
        let ix: Vec<usize> = (0..nq).map(|_| s.below(1 << log_len)).collect();
        p.decommitment().write_slice(pr.layer(&t, layer).unwrap());
        for &i in &ix {
            pr.prove_opening(&t, layer, i, &mut p.decommitment()).unwrap();
        }
        let ch: BinaryField128b = p.sample();
        let proof = p.finalize();
        ensures!(proof.len() == 32 + MerkleTreeScheme::<BinaryField16b>::proof_size(pr.scheme(), 1 << log_len, nq, layer).unwrap(), "the declared proof size is the number of bytes for all queries", "log_len {log_len} layer {layer} queries {nq}");
        let mut v = VerifierTranscript::<Ch>::new(proof);
        let root: Output<H> = v.message().read().unwrap();
        let caps: Vec<Output<H>> = v.decommitment().read_vec(1 << layer).unwrap();
        ensures!(pr.scheme().verify_layer(&root, layer, &caps).is_ok(), "the layer of a session verifies");
        for &i in &ix {
            ensures!(pr.scheme().verify_opening(i, &data[2 * i..2 * i + 2], layer, log_len, &caps, &mut v.decommitment()).is_ok(), "every query of a session verifies", "index {i}");
        }
        let ch2: BinaryField128b = v.sample();
        ensures!(ch == ch2 && v.finalize().is_ok(), "the session is consumed");
        Ok(())
    }
    fn dyn_reg<F, H, C>(r: &mut Runner, name: &str, n: u64)
    where
        F: TowerField + Fx,
        H: ParallelDigest<Digest: BlockSizeUser + FixedOutputReset + Digest + Clone + Sync + Send> + Sync + 'static,
        C: PseudoCompressionFunction<Output<H::Digest>, 2> + Sync + Default + 'static,
        Output<H::Digest>: Copy,
    {
        r.sampled(&format!("tree_{name}"), "BinaryMerkleTree, BinaryMerkleTreeProver::{commit,commit_iterated,layer,prove_opening}, BinaryMerkleTreeScheme::{verify_vector,verify_layer,verify_opening,proof_size}", n, |s| tree::<F, H, C>(s));
    }
    pub fn register(r: &mut Runner) {
        dyn_reg::<BinaryField16b, Groestl256, Groestl256ByteCompression>(r, "groestl_b16", 400);
        dyn_reg::<BinaryField128b, Groestl256Parallel, Groestl256ByteCompression>(r, "groestl_parallel_b128", 400);
        dyn_reg::<AESTowerField32b, sha2::Sha256, Sha256Compression>(r, "sha256_aes32", 500);
        dyn_reg::<BinaryField32b, VisionHasherDigest, Vision32Compression>(r, "vision_b32", 30);
        dyn_reg::<BinaryField128b, ParallelMultidigestImpl<VisionHasherDigestByteSliced, 32>, Vision32Compression>(r, "vision_parallel_b128", 30);
        r.sampled("session", "commit, layer, openings and verification through transcripts", 500, session);
        super::obligations(r);
    }
}

obligations! {
    toy_layer_0, quick, 8, "bounded: one node, all digests (2-byte digest)", "BinaryMerkleTreeScheme::verify_layer", toy_layer::<0, 1>;
    toy_layer_1, quick, 8, "bounded: depth 1, all digests (2-byte digest)", "BinaryMerkleTreeScheme::verify_layer, fold_digests_vector_inplace", toy_layer::<1, 2>;
    toy_layer_2, quick, 8, "bounded: depth 2, all digests (2-byte digest)", "BinaryMerkleTreeScheme::verify_layer, fold_digests_vector_inplace", toy_layer::<2, 4>;
    toy_opening_1_0, quick, 10, "bounded: depth 1, all values, indices, branches (2-byte digest)", "BinaryMerkleTreeScheme::verify_opening, hash_serialize", toy_opening::<1, 0, 1>;
    toy_opening_2_1, quick, 10, "bounded: depth 2 against layer 1, all values, indices, branches (2-byte digest)", "BinaryMerkleTreeScheme::verify_opening, hash_serialize", toy_opening::<2, 1, 2>;
    toy_opening_2_0, quick, 10, "bounded: depth 2, all values, indices, branches (2-byte digest)", "BinaryMerkleTreeScheme::verify_opening, hash_serialize", toy_opening::<2, 0, 1>;
    toy_layer_3, quick, 10, "bounded: depth 3, all digests (2-byte digest)", "BinaryMerkleTreeScheme::verify_layer, fold_digests_vector_inplace", toy_layer::<3, 8>;
    toy_opening_3_0, quick, 12, "bounded: depth 3, all values, indices, branches (2-byte digest)", "BinaryMerkleTreeScheme::verify_opening, hash_serialize", toy_opening::<3, 0, 1>;
    toy_opening_3_2, quick, 12, "bounded: depth 3 against layer 2, all values, indices, branches (2-byte digest)", "BinaryMerkleTreeScheme::verify_opening, hash_serialize", toy_opening::<3, 2, 4>;
    proof_sizes, quick, 8, "complete for lengths up to 2^39", "BinaryMerkleTreeScheme::{proof_size,optimal_verify_layer}", toy_sizes;
}
