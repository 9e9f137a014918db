//! C21: hash functions and batched hashing.
use crate::rt::*;
use crate::toy::*;
use crate::{ensures, obligations};
use binius_hash::groestl::{GroestlShortImpl, GroestlShortInternal};
use binius_hash::HashBuffer;
use binius_hash::multi_digest::{MultiDigest, ParallelDigest, ParallelMultidigestImpl};
use bytes::BufMut;
use digest::{Digest, Output};
use std::mem::MaybeUninit;

/// Two lanes of the small digest.
#[derive(Clone)]
pub struct ToyMulti([Toy; 2]);
impl MultiDigest<2> for ToyMulti {
    type Digest = Toy;
    fn new() -> Self {
        ToyMulti(Default::default())
    }
    fn update(&mut self, data: [&[u8]; 2]) {
        // equal lengths are the trait's precondition
        assert!(data[0].len() == data[1].len());
        for l in 0..2 {
            digest::Update::update(&mut self.0[l], data[l]);
        }
    }
    fn finalize_into(mut self, out: &mut [MaybeUninit<Output<Toy>>; 2]) {
        self.finalize_into_reset(out)
    }
    fn finalize_into_reset(&mut self, out: &mut [MaybeUninit<Output<Toy>>; 2]) {
        for l in 0..2 {
            let b = self.0[l].0.to_le_bytes();
            out[l].write(b.into());
        }
        self.reset()
    }
    fn reset(&mut self) {
        self.0 = Default::default();
    }
    fn digest(data: [&[u8]; 2], out: &mut [MaybeUninit<Output<Toy>>; 2]) {
        let mut d = Self::new();
        d.update(data);
        d.finalize_into(out)
    }
}
fn toy(prefix: &[u8], m: &[u8]) -> [u8; 2] {
    let mut t = Toy::default();
    for &b in prefix.iter().chain(m) {
        t.byte(b);
    }
    t.0.to_le_bytes()
}
/// Bytes written through a HashBuffer in any split are the bytes hashed.
fn buffer<const N: usize>(s: &mut impl Src) -> R {
    let m: [u8; N] = std::array::from_fn(|_| s.u8());
    let (a, b) = (s.below(N + 1), s.below(N + 1));
    crate::requires!(a <= b);
    let mut h = Toy::default();
    {
        let mut buf = HashBuffer::new(&mut h);
        buf.put_slice(&m[..a]);
        buf.put_slice(&m[a..b]);
        for &x in &m[b..] {
            buf.put_u8(x);
        }
    }
    ensures!(h.0.to_le_bytes() == toy(&[], &m), "bytes written through a hash buffer are the bytes hashed");
    Ok(())
}
/// Every position of a batch holds the digest of its own message, partial batches included.
fn batch<const N: usize>(s: &mut impl Src) -> R {
    use binius_field::{BinaryField8b, Field};
    use binius_maybe_rayon::prelude::*;
    let _ = BinaryField8b::ONE;
    let m: [[u8; 2]; N] = std::array::from_fn(|_| [s.u8(), s.u8()]);
    let p = s.u8();
    let elems: Vec<Vec<BinaryField8b>> = m.iter().map(|r| r.iter().map(|&b| BinaryField8b::from(b)).collect()).collect();
    let mut out: [MaybeUninit<Output<Toy>>; N] = std::array::from_fn(|_| MaybeUninit::uninit());
    <ParallelMultidigestImpl<ToyMulti, 2> as ParallelDigest>::new_with_prefix([p]).digest(elems.into_par_iter(), &mut out);
    for i in 0..N {
        let d: [u8; 2] = unsafe { out[i].assume_init() }.into();
        ensures!(d == toy(&[p], &m[i]), "each position of a batch is the digest of its own message");
    }
    Ok(())
}
/// Byte conversions and addition of the Groestl state, for all 512-bit blocks.
fn groestl_state(s: &mut impl Src) -> R {
    let a: [u8; 64] = std::array::from_fn(|_| s.u8());
    let b: [u8; 64] = std::array::from_fn(|_| s.u8());
    let mut x = GroestlShortImpl::state_from_bytes(&a);
    ensures!(GroestlShortImpl::state_to_bytes(&x) == a, "the state's bytes round-trip");
    GroestlShortImpl::xor_state(&mut x, &GroestlShortImpl::state_from_bytes(&b));
    let o = GroestlShortImpl::state_to_bytes(&x);
    let mut e = a;
    for i in 0..64 {
        e[i] ^= b[i];
    }
    ensures!(o == e, "the sum of two states");
    Ok(())
}

#[cfg(not(kani))]
pub mod native {
    use super::*;
    use crate::spec::*;
    use binius_field::packed::get_packed_slice;
    use binius_field::*;
    use binius_hash::groestl::{Groestl256, Groestl256ByteCompression, Groestl256Parallel};
    use binius_hash::permutation::Permutation;
    use binius_hash::sha2::Sha256Compression;
    use binius_hash::{PseudoCompressionFunction, Vision32Compression, VisionHasherDigest, VisionHasherDigestByteSliced, Vision32ParallelDigest, Vision32bPermutation, Vision32MDSTransform, hash_serialize};
    use binius_maybe_rayon::prelude::*;
    use crate::vision_constants as vc;
    use ::sha2::Sha256;
    use std::sync::LazyLock;

    // ---- Groestl-256, from the specification ----
    fn gmul(mut a: u8, mut b: u8) -> u8 {
        let mut r = 0;
        while b != 0 {
            if b & 1 == 1 {
                r ^= a;
            }
            a = a << 1 ^ if a & 0x80 != 0 { 0x1b } else { 0 };
            b >>= 1;
        }
        r
    }
    static SBOX: LazyLock<[u8; 256]> = LazyLock::new(|| {
        std::array::from_fn(|x| {
            let inv = (0..=255u8).find(|&y| gmul(x as u8, y) == 1).unwrap_or(0);
            inv ^ inv.rotate_left(1) ^ inv.rotate_left(2) ^ inv.rotate_left(3) ^ inv.rotate_left(4) ^ 0x63
        })
    });
    static MIX: LazyLock<[[u8; 256]; 8]> = LazyLock::new(|| {
        let c = [2, 2, 3, 4, 5, 3, 5, 7];
        std::array::from_fn(|i| std::array::from_fn(|x| gmul(c[i], x as u8)))
    });
    /// P (q = false) or Q of the specification; byte 8*col + row.
    pub fn perm(s: &mut [u8; 64], q: bool) {
        for r in 0..10u8 {
            for col in 0..8 {
                if q {
                    for row in 0..8 {
                        s[8 * col + row] ^= 0xff;
                    }
                    s[8 * col + 7] ^= (col as u8) << 4 ^ r;
                } else {
                    s[8 * col] ^= (col as u8) << 4 ^ r;
                }
            }
            for b in s.iter_mut() {
                *b = SBOX[*b as usize];
            }
            let sh = if q { [1, 3, 5, 7, 0, 2, 4, 6] } else { [0, 1, 2, 3, 4, 5, 6, 7] };
            let t = *s;
            for row in 0..8 {
                for col in 0..8 {
                    s[8 * col + row] = t[8 * ((col + sh[row]) % 8) + row];
                }
            }
            let t = *s;
            for col in 0..8 {
                for row in 0..8 {
                    s[8 * col + row] = (0..8).fold(0, |a, k| a ^ MIX[k][t[8 * col + (row + k) % 8] as usize]);
                }
            }
        }
    }
    fn compress(h: &mut [u8; 64], m: &[u8]) {
        let mut q: [u8; 64] = m.try_into().unwrap();
        let mut p: [u8; 64] = std::array::from_fn(|i| h[i] ^ m[i]);
        perm(&mut p, false);
        perm(&mut q, true);
        for i in 0..64 {
            h[i] ^= p[i] ^ q[i];
        }
    }
    pub fn groestl(m: &[u8]) -> [u8; 32] {
        let mut v = m.to_vec();
        v.push(0x80);
        while v.len() % 64 != 56 {
            v.push(0);
        }
        let blocks = (v.len() / 64 + 1) as u64;
        v.extend(blocks.to_be_bytes());
        let mut h = [0u8; 64];
        h[62] = 1;
        for b in v.chunks(64) {
            compress(&mut h, b);
        }
        omega(&h)
    }
    fn omega(h: &[u8; 64]) -> [u8; 32] {
        let mut p = *h;
        perm(&mut p, false);
        std::array::from_fn(|i| p[32 + i] ^ h[32 + i])
    }

    // ---- Vision Mark-32, from the specification ----
    type A32 = AESTowerField32b;
    type A8 = AESTowerField8b;
    /// The MDS matrix: interpolation on the points 0..24 of the 8-bit field and evaluation at 24..48.
    static MDS: LazyLock<Vec<Vec<A8>>> = LazyLock::new(|| {
        let x: Vec<A8> = (0..48u8).map(|i| A8::from(BinaryField8b::from(i))).collect();
        (0..24).map(|i| (0..24).map(|j| (0..24).filter(|&k| k != j).map(|k| (x[24 + i] - x[k]) * (x[j] - x[k]).invert_or_zero()).product()).collect()).collect()
    });
    fn sbox(x: A32, m: &[A32; 32], c: A32) -> A32 {
        let inv = x.invert_or_zero().raw();
        (0..32).filter(|i| inv >> i & 1 == 1).map(|i| m[i]).sum::<A32>() + c
    }
    fn mds(s: &mut [A32; 24]) {
        *s = std::array::from_fn(|i| (0..24).map(|j| s[j] * A32::from(MDS[i][j])).sum());
    }
    fn add(s: &mut [A32; 24], r: usize) {
        for i in 0..24 {
            s[i] += A32::from(vc::ROUND_KEYS[r][i]);
        }
    }
    fn vision_perm(s: &mut [A32; 24]) {
        add(s, 0);
        for r in 0..vc::NUM_ROUNDS {
            for x in s.iter_mut() {
                *x = sbox(*x, &vc::AFFINE_INV_AES, vc::AFFINE_INV_CONST_AES);
            }
            mds(s);
            add(s, 1 + 2 * r);
            for x in s.iter_mut() {
                *x = sbox(*x, &vc::AFFINE_FWD_AES, vc::AFFINE_FWD_CONST_AES);
            }
            mds(s);
            add(s, 2 + 2 * r);
        }
    }
    fn vision(m: &[u8]) -> [u8; 32] {
        let mut v = m.to_vec();
        v.push(0x80);
        while v.len() % 64 != 0 {
            v.push(0);
        }
        *v.last_mut().unwrap() |= 1;
        let mut s = [A32::ZERO; 24];
        for b in v.chunks(64) {
            for i in 0..16 {
                s[i] = A32::from(BinaryField32b::of(u32::from_le_bytes(b[4 * i..4 * i + 4].try_into().unwrap()) as u128));
            }
            vision_perm(&mut s);
        }
        let mut out = [0; 32];
        for i in 0..8 {
            out[4 * i..4 * i + 4].copy_from_slice(&(BinaryField32b::from(s[i]).raw() as u32).to_le_bytes());
        }
        out
    }

    // ---- contracts ----
    fn message(s: &mut NSrc, max: usize) -> Vec<u8> {
        let n = match s.below(4) {
            // lengths around the padding boundaries
            0 => (s.below(max / 64 + 1) * 64 + 52 + s.below(16)).min(max),
            _ => s.below(max + 1),
        };
        let mut m = vec![0; n];
        for b in m.iter_mut() {
            *b = s.u8();
        }
        m
    }
    /// Cuts of 0..n, in order.
    fn cuts(s: &mut NSrc, n: usize) -> Vec<usize> {
        let mut c: Vec<usize> = (0..s.below(5)).map(|_| s.below(n + 1)).collect();
        c.push(0);
        c.push(n);
        c.sort();
        c
    }
    fn single<D: Digest + digest::FixedOutputReset + digest::Reset + Clone + digest::core_api::BlockSizeUser>(s: &mut NSrc, reference: fn(&[u8]) -> [u8; 32], max: usize) -> R {
        let m = message(s, max);
        let e = reference(&m);
        let d = D::digest(&m);
        ensures!(d[..] == e, "the digest of a message follows the specification", "{} bytes: {:x?} {:x?}", m.len(), &d[..8], &e[..8]);
        let mut h = D::new();
        let first = message(s, 130);
        let c = cuts(s, m.len());
        // an instance used for another message before
        match s.below(3) {
            0 => {}
            1 => {
                Digest::update(&mut h, &first);
                Digest::reset(&mut h);
            }
            _ => {
                Digest::update(&mut h, &first);
                let o = Digest::finalize_reset(&mut h);
                ensures!(o[..] == reference(&first), "the digest before a reset");
            }
        }
        for w in c.windows(2) {
            Digest::update(&mut h, &m[w[0]..w[1]]);
        }
        let snapshot = h.clone();
        ensures!(h.finalize()[..] == e, "any split into updates, also after a reset, gives the same digest", "{} bytes cut at {c:?}", m.len());
        let t = message(s, 70);
        let mut whole = m.clone();
        whole.extend(&t);
        ensures!(snapshot.chain_update(&t).finalize()[..] == reference(&whole), "a copied instance continues independently");
        // through the serialization buffer
        let mut h = D::new_with_prefix(&first);
        {
            let mut b = HashBuffer::new(&mut h);
            for w in c.windows(2) {
                b.put_slice(&m[w[0]..w[1]]);
            }
        }
        let mut whole = first.clone();
        whole.extend(&m);
        ensures!(h.finalize()[..] == reference(&whole), "bytes written through a hash buffer are the bytes hashed");
        let els: Vec<BinaryField8b> = m.iter().map(|&b| BinaryField8b::from(b)).collect();
        let r = hash_serialize::<BinaryField8b, D>(els.iter()).unwrap();
        ensures!(r[..] == e, "hashing serialized items hashes their bytes");
        Ok(())
    }
    fn out<D: Digest>(n: usize) -> Vec<MaybeUninit<Output<D>>> {
        // a recognisable value in every position
        (0..n).map(|_| MaybeUninit::new(Output::<D>::default())).collect()
    }
    fn multi<M: MultiDigest<N>, const N: usize>(s: &mut NSrc, reference: fn(&[u8]) -> [u8; 32], max: usize) -> R {
        let n = message(s, max).len();
        let rows: Vec<Vec<u8>> = (0..N).map(|_| (0..n).map(|_| s.u8()).collect()).collect();
        let check = |o: &[MaybeUninit<Output<M::Digest>>], rows: &[Vec<u8>]| -> R {
            for i in 0..N {
                let d = unsafe { o[i].assume_init_ref() };
                ensures!(d[..] == reference(&rows[i]), "every lane is the digest of its own message", "lane {i} of {N}, {} bytes", rows[i].len());
            }
            Ok(())
        };
        let mut o: [MaybeUninit<Output<M::Digest>>; N] = std::array::from_fn(|_| MaybeUninit::uninit());
        M::digest(std::array::from_fn(|i| &rows[i][..]), &mut o);
        check(&o, &rows)?;
        let mut h = M::new();
        let first: Vec<Vec<u8>> = {
            let n = s.below(140);
            (0..N).map(|_| (0..n).map(|_| s.u8()).collect()).collect()
        };
        match s.below(3) {
            0 => {}
            1 => {
                h.update(std::array::from_fn(|i| &first[i][..]));
                h.reset();
            }
            _ => {
                h.update(std::array::from_fn(|i| &first[i][..]));
                h.finalize_into_reset(&mut o);
                check(&o, &first)?;
            }
        }
        let c = cuts(s, n);
        for w in c.windows(2) {
            h.update(std::array::from_fn(|i| &rows[i][w[0]..w[1]]));
        }
        let h2 = h.clone();
        h.finalize_into(&mut o);
        check(&o, &rows)?;
        let t: Vec<Vec<u8>> = rows.iter().map(|r| r.iter().chain(&first[0]).copied().collect()).collect();
        h2.chain_update([&first[0][..]; N]).finalize_into(&mut o);
        check(&o, &t)?;
        let p = message(s, 100);
        let t: Vec<Vec<u8>> = rows.iter().map(|r| p.iter().chain(r).copied().collect()).collect();
        M::new_with_prefix(&p).chain_update(std::array::from_fn(|i| &rows[i][..])).finalize_into(&mut o);
        check(&o, &t)
    }
    fn parallel<D: ParallelDigest + Sync>(s: &mut NSrc, reference: fn(&[u8]) -> [u8; 32], lanes: usize, max: usize) -> R {
        let n = s.below(max);
        let rows = s.below(2 * lanes + 3);
        let data: Vec<Vec<BinaryField32b>> = (0..rows).map(|_| (0..n).map(|_| el(s)).collect()).collect();
        let p = message(s, 70);
        let d = if s.bool() { D::new() } else { D::new_with_prefix(&p) };
        // new() and new_with_prefix of nothing agree
        let mut a = out::<D::Digest>(rows);
        D::new_with_prefix(&p).digest(data.par_iter().map(|r| r.iter().copied()), &mut a);
        let mut b = out::<D::Digest>(rows);
        D::new().digest(data.par_iter().map(|r| r.iter().copied()), &mut b);
        for i in 0..rows {
            let bytes: Vec<u8> = data[i].iter().flat_map(|x| (x.raw() as u32).to_le_bytes()).collect();
            let with: Vec<u8> = p.iter().copied().chain(bytes.iter().copied()).collect();
            ensures!(unsafe { a[i].assume_init_ref() }[..] == reference(&with) && unsafe { b[i].assume_init_ref() }[..] == reference(&bytes), "each position of a batch is the digest of its own message", "row {i} of {rows}, {n} elements");
        }
        // an instance can be used again
        let mut c1 = out::<D::Digest>(rows);
        let mut c2 = out::<D::Digest>(rows);
        d.digest(data.par_iter().map(|r| r.iter().copied()), &mut c1);
        d.digest(data.par_iter().map(|r| r.iter().copied()), &mut c2);
        ensures!((0..rows).all(|i| unsafe { c1[i].assume_init_ref() == c2[i].assume_init_ref() }), "batches do not depend on earlier ones");
        Ok(())
    }
    fn arr(s: &mut NSrc) -> [u8; 32] {
        std::array::from_fn(|_| s.u8())
    }
    fn compressions(s: &mut NSrc) -> R {
        let (a, b) = (arr(s), arr(s));
        let ab = [a, b].concat();
        let g = Groestl256ByteCompression.compress([a.into(), b.into()]);
        ensures!(g[..] == omega(&ab.clone().try_into().unwrap()), "the Groestl compression is the output transformation of both inputs in order");
        let v = Vision32Compression.compress([a.into(), b.into()]);
        ensures!(v[..] == vision(&ab), "the Vision compression is the digest of both inputs in order");
        let c = Sha256Compression::default().compress([a.into(), b.into()]);
        let iv: [u8; 32] = <Sha256 as Digest>::digest(b"BINIUS SHA-256 COMPRESS").into();
        let mut st: [u32; 8] = std::array::from_fn(|i| u32::from_ne_bytes(iv[4 * i..4 * i + 4].try_into().unwrap()));
        ::sha2::compress256(&mut st, &[*digest::core_api::Block::<Sha256>::from_slice(&ab)]);
        let e: Vec<u8> = st.iter().flat_map(|w| w.to_ne_bytes()).collect();
        ensures!(c[..] == e[..], "the SHA-256 compression is one block from the domain-separated state");
        Ok(())
    }
    fn groestl_perms(s: &mut NSrc) -> R {
        let a: [u8; 64] = std::array::from_fn(|_| s.u8());
        let m: [u8; 64] = std::array::from_fn(|_| s.u8());
        let st = GroestlShortImpl::state_from_bytes(&a);
        let (mut p, mut q, mut h) = (st, st, st);
        GroestlShortImpl::p_perm(&mut p);
        GroestlShortImpl::q_perm(&mut q);
        GroestlShortImpl::compress(&mut h, &m);
        let (mut ep, mut eq, mut eh) = (a, a, a);
        perm(&mut ep, false);
        perm(&mut eq, true);
        compress(&mut eh, &m);
        ensures!(GroestlShortImpl::state_to_bytes(&p) == ep, "the permutation P");
        ensures!(GroestlShortImpl::state_to_bytes(&q) == eq, "the permutation Q");
        ensures!(GroestlShortImpl::state_to_bytes(&h) == eh, "the Groestl compression function");
        Ok(())
    }
    fn vision_perms(s: &mut NSrc) -> R {
        let n = 32;
        let ins: Vec<[A32; 24]> = (0..n).map(|_| std::array::from_fn(|_| if s.below(8) == 0 { A32::ZERO } else { el(s) })).collect();
        let outs: Vec<[A32; 24]> = ins
            .iter()
            .map(|x| {
                let mut x = *x;
                vision_perm(&mut x);
                x
            })
            .collect();
        let p = Vision32bPermutation::default();
        for (i, o) in ins.iter().zip(&outs) {
            let mut st: [PackedAESBinaryField8x32b; 3] = std::array::from_fn(|k| PackedField::from_fn(|j| i[8 * k + j]));
            p.permute_mut(&mut st);
            ensures!((0..24).all(|k| get_packed_slice(&st, k) == o[k]), "the Vision permutation");
        }
        let mut st: [ByteSlicedAES32x32b; 24] = std::array::from_fn(|k| PackedField::from_fn(|j| ins[j][k]));
        p.permute_mut(&mut st);
        for (l, o) in outs.iter().enumerate() {
            ensures!((0..24).all(|k| st[k].get(l) == o[k]), "the byte-sliced Vision permutation in every lane", "lane {l}");
        }
        // the MDS layer alone
        let mut x = ins[0];
        mds(&mut x);
        let mut st: [PackedAESBinaryField8x32b; 3] = std::array::from_fn(|k| PackedField::from_fn(|j| ins[0][8 * k + j]));
        Vision32MDSTransform::default().transform(PackedAESBinaryField8x32b::cast_bases_mut(&mut st).try_into().unwrap());
        ensures!((0..24).all(|k| get_packed_slice(&st, k) == x[k]), "the MDS layer interpolates and evaluates");
        Ok(())
    }
    pub fn register(r: &mut Runner) {
        r.sampled("groestl256", "Groestl256: Digest, HashBuffer, hash_serialize", 6000, |s| single::<Groestl256>(s, groestl, 400));
        r.sampled("vision32", "VisionHasherDigest: Digest, HashBuffer, hash_serialize", 200, |s| single::<VisionHasherDigest>(s, vision, 300));
        r.sampled("vision32_lanes", "VisionHasherDigestByteSliced: MultiDigest", 16, |s| multi::<VisionHasherDigestByteSliced, 32>(s, vision, 200));
        r.sampled("groestl_parallel", "Groestl256Parallel: ParallelDigest", 400, |s| parallel::<Groestl256Parallel>(s, groestl, 4, 60));
        r.sampled("vision_parallel", "Vision32ParallelDigest: ParallelDigest, ParallelMultidigestImpl", 16, |s| parallel::<Vision32ParallelDigest>(s, vision, 32, 20));
        r.sampled("compressions", "Groestl256ByteCompression, Vision32Compression, Sha256Compression", 1000, |s| compressions(s));
        r.sampled("groestl_permutations", "GroestlShortImpl: p_perm, q_perm, compress", 20000, |s| groestl_perms(s));
        r.sampled("vision_permutations", "Vision32bPermutation, Vision32MDSTransform", 40, |s| vision_perms(s));
        super::obligations(r);
    }
}
#[cfg(not(kani))]
pub use native::register;

obligations! {
    groestl_state_bytes, quick, 70, "complete: all 512-bit blocks", "GroestlShortImpl::{state_from_bytes,state_to_bytes,xor_state}", groestl_state;
    hash_buffer_5, thorough, 10, "bounded: 5 bytes, every split in two writes and single bytes, block size 4", "HashBuffer", buffer::<5>;
}
