//! C06: transcripts and the challenger.
use crate::rt::*;
use crate::{ensures, obligations};
use binius_core::fiat_shamir::{Challenger, HasherChallenger};
use bytes::{Buf, BufMut};
use crate::toy::Toy;

/// Specification of the challenger over Toy, one byte at a time.
struct ToyModel {
    st: Toy,
    buf: [u8; 2],
    index: usize,
    observing: bool,
}
impl ToyModel {
    fn new() -> Self {
        let buf = Toy::default().0.to_le_bytes();
        let mut st = Toy::default();
        st.byte(buf[0]);
        st.byte(buf[1]);
        ToyModel { st, buf, index: 0, observing: false }
    }
    fn observe(&mut self, b: u8) {
        if !self.observing {
            for x in self.index.to_le_bytes() {
                self.st.byte(x);
            }
            self.observing = true;
        }
        self.st.byte(b);
    }
    fn sample(&mut self) -> u8 {
        if self.observing {
            self.observing = false;
            self.index = 2;
        }
        if self.index == 2 {
            self.buf = self.st.0.to_le_bytes();
            self.st = Toy::default();
            let b = self.buf;
            self.st.byte(b[0]);
            self.st.byte(b[1]);
            self.index = 0;
        }
        let r = self.buf[self.index];
        self.index += 1;
        r
    }
}
fn toy_observe(c: &mut HasherChallenger<Toy>, m: &mut ToyModel, s: &mut impl Src, n: usize) {
    let mut b = [0u8; 6];
    for x in b.iter_mut().take(n) {
        *x = s.u8();
        m.observe(*x);
    }
    c.observer().put_slice(&b[..n]);
}
fn toy_sample(c: &mut HasherChallenger<Toy>, m: &mut ToyModel, n: usize) -> bool {
    let mut b = [0u8; 5];
    c.sampler().copy_to_slice(&mut b[..n]);
    let mut ok = true;
    for x in b.iter().take(n) {
        ok &= *x == m.sample();
    }
    ok
}
fn toy_obs_sample<const A: usize, const B: usize>(s: &mut impl Src) -> R {
    let (mut c, mut m) = (HasherChallenger::<Toy>::default(), ToyModel::new());
    toy_observe(&mut c, &mut m, s, A);
    ensures!(toy_sample(&mut c, &mut m, B), "samples are a function of the observed bytes");
    Ok(())
}
fn toy_mixed<const A: usize, const B: usize, const C: usize, const D: usize>(s: &mut impl Src) -> R {
    let (mut c, mut m) = (HasherChallenger::<Toy>::default(), ToyModel::new());
    ensures!(toy_sample(&mut c, &mut m, A), "first samples come from the empty history");
    toy_observe(&mut c, &mut m, s, B);
    ensures!(toy_sample(&mut c, &mut m, C), "samples bind observed bytes and the number of samples drawn before");
    toy_observe(&mut c, &mut m, s, D);
    ensures!(toy_sample(&mut c, &mut m, 1), "samples bind observed bytes and the number of samples drawn before");
    Ok(())
}
fn toy_split<const A: usize, const B: usize>(s: &mut impl Src) -> R {
    let (mut c, mut m) = (HasherChallenger::<Toy>::default(), ToyModel::new());
    toy_observe(&mut c, &mut m, s, A);
    toy_observe(&mut c, &mut m, s, B);
    ensures!(toy_sample(&mut c, &mut m, 1), "splitting observed bytes across calls does not matter");
    ensures!(toy_sample(&mut c, &mut m, 2), "splitting samples across calls does not matter");
    Ok(())
}

#[cfg(not(kani))]
pub use nat::register;
#[cfg(not(kani))]
mod nat {
    use super::*;
    use crate::spec::Fx;
    use binius_core::fiat_shamir::{CanSample, CanSampleBits};
    use binius_core::transcript::{ProverTranscript, VerifierTranscript, read_u64, write_u64};
    use binius_field::*;
    use binius_hash::groestl::Groestl256;
    use binius_utils::{DeserializeBytes, SerializationMode, SerializeBytes};
    use digest::{Digest, generic_array::typenum::Unsigned};

    const CT: SerializationMode = SerializationMode::CanonicalTower;
    type Sha = sha2::Sha256;

    /// Specification: what the challenger absorbs, one byte at a time, over a digest used as a black box.
    #[derive(Clone)]
    struct Model<H> {
        absorbed: Vec<u8>,
        buf: Vec<u8>,
        index: usize,
        observing: bool,
        _h: std::marker::PhantomData<H>,
    }
    impl<H: Digest> Model<H> {
        fn new() -> Self {
            let d = H::digest([]).to_vec();
            Model { absorbed: d.clone(), buf: d, index: 0, observing: false, _h: Default::default() }
        }
        fn observe(&mut self, b: &[u8]) {
            if b.is_empty() {
                return;
            }
            if !self.observing {
                self.absorbed.extend(self.index.to_le_bytes());
                self.observing = true;
            }
            self.absorbed.extend(b);
        }
        fn sample(&mut self, n: usize) -> Vec<u8> {
            if n == 0 {
                return vec![];
            }
            if self.observing {
                self.observing = false;
                self.index = H::OutputSize::USIZE;
            }
            (0..n)
                .map(|_| {
                    if self.index == self.buf.len() {
                        self.buf = H::digest(&self.absorbed).to_vec();
                        self.absorbed = self.buf.clone();
                        self.index = 0;
                    }
                    self.index += 1;
                    self.buf[self.index - 1]
                })
                .collect()
        }
    }

    #[derive(Clone, Debug)]
    enum Val {
        Bytes(Vec<u8>),
        U64(u64),
        S128(Vec<BinaryField128b>),
        S8(Vec<BinaryField8b>),
        S1(Vec<BinaryField1b>),
        Aes(Vec<AESTowerField32b>),
        Pack(Vec<PackedBinaryField4x32b>),
        Obj(Vec<Option<u16>>),
        Txt(String),
    }
    fn val(s: &mut NSrc) -> Val {
        let n = match s.below(6) {
            0 => 0,
            1 | 2 => 1,
            _ => s.below(9),
        };
        match s.below(9) {
            0 => {
                let n = if s.bool() { s.below(12) } else { [31, 32, 33, 63, 64, 65, 127, 128, 129, 200][s.below(10)] };
                Val::Bytes((0..n).map(|_| s.u8()).collect())
            }
            1 => Val::U64(s.u64()),
            2 => Val::S128((0..n).map(|_| Fx::of(s.u128())).collect()),
            3 => Val::S8((0..n).map(|_| Fx::of(s.word(8))).collect()),
            4 => Val::S1((0..n).map(|_| Fx::of(s.word(1))).collect()),
            5 => Val::Aes((0..n).map(|_| Fx::of(s.word(32))).collect()),
            6 => Val::Pack((0..n).map(|_| PackedField::from_fn(|_| Fx::of(s.word(32)))).collect()),
            7 => Val::Obj((0..n).map(|_| if s.bool() { Some(s.u16()) } else { None }).collect()),
            _ => Val::Txt((0..n).map(|_| (b'a' + s.below(26) as u8) as char).collect()),
        }
    }
    fn ser<T: SerializeBytes>(v: &[T]) -> Vec<u8> {
        let mut b = vec![];
        for x in v {
            x.serialize(&mut b, CT).unwrap();
        }
        b
    }
    impl Val {
        fn bytes(&self) -> Vec<u8> {
            match self {
                Val::Bytes(b) => b.clone(),
                Val::U64(v) => v.to_le_bytes().to_vec(),
                Val::S128(v) => ser(v),
                Val::S8(v) => ser(v),
                Val::S1(v) => ser(v),
                Val::Aes(v) => ser(v),
                Val::Pack(v) => ser(&v.iter().flat_map(|p| p.iter()).collect::<Vec<_>>()),
                Val::Obj(v) => ser(&[v.clone()]),
                Val::Txt(t) => ser(&[t.clone()]),
            }
        }
        fn put<B: BufMut>(&self, w: &mut binius_core::transcript::TranscriptWriter<B>, how: usize) {
            match self {
                Val::Bytes(b) if how == 0 => w.write_bytes(b),
                Val::Bytes(b) => {
                    let k = how * b.len() / 4;
                    w.write_bytes(&b[..k]);
                    w.write_bytes(&b[k..]);
                }
                Val::U64(v) => write_u64(w, *v),
                Val::S128(v) => match how {
                    0 => w.write_scalar_slice(v),
                    1 => w.write_scalar_iter(v.iter().copied()),
                    2 => w.write_slice(v),
                    _ => v.iter().for_each(|x| w.write_scalar(*x)),
                },
                Val::S8(v) => match how {
                    0 => w.write_scalar_slice(v),
                    _ => v.iter().for_each(|x| w.write(x)),
                },
                Val::S1(v) => w.write_scalar_slice(v),
                Val::Aes(v) => match how {
                    0 => w.write_scalar_slice(v),
                    _ => w.write_scalar_iter(v.iter().copied()),
                },
                Val::Pack(v) => match how {
                    0 => w.write_packed_slice(v),
                    1 => w.write_packed_iter(v.iter().copied()),
                    _ => v.iter().for_each(|x| w.write_packed(*x)),
                },
                Val::Obj(v) => w.write(v),
                Val::Txt(t) => w.write(t),
            }
        }
        /// read the value back, through one of the reading functions; None if an error was reported
        fn get<B: Buf>(&self, r: &mut binius_core::transcript::TranscriptReader<B>, how: usize) -> Option<Val> {
            Some(match self {
                Val::Bytes(b) => {
                    let mut o = vec![0; b.len()];
                    let k = how * b.len() / 4;
                    r.read_bytes(&mut o[..k]).ok()?;
                    r.read_bytes(&mut o[k..]).ok()?;
                    Val::Bytes(o)
                }
                Val::U64(_) => Val::U64(read_u64(r).ok()?),
                Val::S128(v) => Val::S128(match how {
                    0 => r.read_scalar_slice(v.len()).ok()?,
                    1 => {
                        let mut o = vec![BinaryField128b::ZERO; v.len()];
                        r.read_scalar_slice_into(&mut o).ok()?;
                        o
                    }
                    2 => r.read_vec(v.len()).ok()?,
                    _ => (0..v.len()).map(|_| r.read_scalar().ok()).collect::<Option<Vec<_>>>()?,
                }),
                Val::S8(v) => Val::S8((0..v.len()).map(|_| r.read().ok()).collect::<Option<Vec<_>>>()?),
                Val::S1(v) => Val::S1(r.read_scalar_slice(v.len()).ok()?),
                Val::Aes(v) => Val::Aes(r.read_scalar_slice(v.len()).ok()?),
                Val::Pack(v) => Val::Pack(match how {
                    0 => r.read_packed_slice(v.len()).ok()?,
                    _ => (0..v.len()).map(|_| r.read_packed().ok()).collect::<Option<Vec<_>>>()?,
                }),
                Val::Obj(_) => Val::Obj(r.read().ok()?),
                Val::Txt(_) => Val::Txt(r.read().ok()?),
            })
        }
    }
    #[derive(Clone, Debug)]
    enum Op {
        Msg(Val),
        Dec(Val),
        Obs(Val),
        Sample(usize, usize),
        Bits(usize),
    }
    fn script(s: &mut NSrc) -> Vec<Op> {
        let n = 1 + s.below(10);
        (0..n)
            .map(|_| match s.below(8) {
                0..=2 => Op::Msg(val(s)),
                3 => Op::Dec(val(s)),
                4 => Op::Obs(val(s)),
                5 | 6 => Op::Sample(s.below(4), 1 + s.below(4)),
                _ => Op::Bits(s.below(40)),
            })
            .collect()
    }
    fn draw<T: CanSample<BinaryField128b> + CanSample<BinaryField32b> + CanSample<AESTowerField8b> + CanSample<BinaryField1b>>(t: &mut T, k: usize, n: usize) -> Vec<u128> {
        match k {
            0 => {
                let v: Vec<BinaryField128b> = t.sample_vec(n);
                v.iter().map(|x| x.raw()).collect()
            }
            1 => {
                let v: [BinaryField32b; 2] = t.sample_array();
                v.iter().map(|x| x.raw()).collect()
            }
            2 => {
                let v: AESTowerField8b = t.sample();
                vec![v.raw()]
            }
            _ => {
                let v: Vec<BinaryField1b> = t.sample_vec(n);
                v.iter().map(|x| x.raw()).collect()
            }
        }
    }
    fn model_draw<H: Digest>(m: &mut Model<H>, k: usize, n: usize) -> Vec<u128> {
        fn of<F: Fx + DeserializeBytes>(b: Vec<u8>) -> u128 {
            F::deserialize(&b[..], CT).unwrap().raw()
        }
        match k {
            0 => (0..n).map(|_| of::<BinaryField128b>(m.sample(16))).collect(),
            1 => (0..2).map(|_| of::<BinaryField32b>(m.sample(4))).collect(),
            2 => vec![of::<AESTowerField8b>(m.sample(1))],
            _ => (0..n).map(|_| of::<BinaryField1b>(m.sample(1))).collect(),
        }
    }
    struct Run {
        proof: Vec<u8>,
        chal: Vec<Vec<u128>>,
        last: Vec<u8>,
    }
    fn prove<C: Challenger + Default>(ops: &[Op], s: &mut NSrc) -> Run {
        let mut p = ProverTranscript::<C>::new();
        p.set_debug(false);
        let mut chal = vec![];
        for o in ops {
            let how = s.below(4);
            match o {
                Op::Msg(v) => v.put(&mut p.message(), how),
                Op::Dec(v) => v.put(&mut p.decommitment(), how),
                Op::Obs(v) => v.put(&mut p.observe(), how),
                Op::Sample(k, n) => chal.push(draw(&mut p, *k, *n)),
                Op::Bits(b) => chal.push(vec![p.sample_bits(*b) as u128]),
            }
        }
        let last: Vec<BinaryField128b> = p.sample_vec(4);
        Run { proof: p.finalize(), chal, last: ser(&last) }
    }
    fn both<C: Challenger + Default, H: Digest>(s: &mut NSrc) -> R {
        let ops = script(s);
        let run = prove::<C>(&ops, s);
        // proof bytes are the messages and decommitments in order
        let tape: Vec<u8> = ops.iter().flat_map(|o| if let Op::Msg(v) | Op::Dec(v) = o { v.bytes() } else { vec![] }).collect();
        ensures!(run.proof == tape, "the proof is the concatenation of what was written");
        // specification of the challenges
        if !ops.iter().any(|o| matches!(o, Op::Obs(v) if v.bytes().is_empty())) {
            let mut m = Model::<H>::new();
            let mut want = vec![];
            for o in &ops {
                match o {
                    Op::Msg(v) | Op::Obs(v) => m.observe(&v.bytes()),
                    Op::Dec(_) => {}
                    Op::Sample(k, n) => want.push(model_draw(&mut m, *k, *n)),
                    Op::Bits(b) => {
                        let w = m.sample(4);
                        let w = u32::from_le_bytes(w.try_into().unwrap());
                        want.push(vec![if *b >= 32 { w as u128 } else { w as u128 & ((1 << b) - 1) }]);
                    }
                }
            }
            ensures!(run.chal == want, "challenges are the specified function of everything observed and sampled before", "{ops:?}");
            ensures!(run.last == m.sample(64), "the final challenge binds the whole history", "{ops:?}");
        }
        // the same writes split differently
        let again = prove::<C>(&ops, s);
        ensures!(again.proof == run.proof && again.chal == run.chal && again.last == run.last, "how data is split across calls does not matter", "{ops:?}");
        // the verifier
        let mut v = VerifierTranscript::<C>::new(run.proof.clone());
        v.set_debug(false);
        let mut ci = 0;
        for o in &ops {
            let how = s.below(4);
            match o {
                Op::Msg(x) => {
                    let g = x.get(&mut v.message(), how);
                    ensures!(g.as_ref().map(|g| g.bytes()) == Some(x.bytes()), "the verifier reads what the prover wrote", "{ops:?} {g:?}");
                }
                Op::Dec(x) => {
                    let g = x.get(&mut v.decommitment(), how);
                    ensures!(g.as_ref().map(|g| g.bytes()) == Some(x.bytes()), "the verifier reads the prover's decommitments", "{ops:?} {g:?}");
                }
                Op::Obs(x) => x.put(&mut v.observe(), how),
                Op::Sample(k, n) => {
                    ensures!(draw(&mut v, *k, *n) == run.chal[ci], "prover and verifier draw the same challenges", "{ops:?}");
                    ci += 1;
                }
                Op::Bits(b) => {
                    let w = v.sample_bits(*b);
                    ensures!(vec![w as u128] == run.chal[ci], "prover and verifier draw the same bits", "{ops:?}");
                    ensures!(*b >= 32 || (w as u64) < 1 << b, "sampled bits are in range");
                    ci += 1;
                }
            }
        }
        let last: Vec<BinaryField128b> = v.sample_vec(4);
        ensures!(ser(&last) == run.last, "prover and verifier end in the same state", "{ops:?}");
        ensures!(v.finalize().is_ok(), "a fully read proof is accepted");
        // left-over bytes
        let mut longer = run.proof.clone();
        longer.push(s.u8());
        let mut v = VerifierTranscript::<C>::new(longer);
        v.set_debug(false);
        for o in &ops {
            match o {
                Op::Msg(x) => drop(x.get(&mut v.message(), 0)),
                Op::Dec(x) => drop(x.get(&mut v.decommitment(), 0)),
                _ => {}
            }
        }
        ensures!(v.finalize().is_err(), "a proof with an unread byte is refused");
        // missing bytes
        if !run.proof.is_empty() {
            let cut = s.below(run.proof.len());
            let mut v = VerifierTranscript::<C>::new(run.proof[..cut].to_vec());
            v.set_debug(false);
            let mut bad = false;
            for o in &ops {
                let how = s.below(4);
                match o {
                    Op::Msg(x) => bad |= x.get(&mut v.message(), how).is_none(),
                    Op::Dec(x) => bad |= x.get(&mut v.decommitment(), how).is_none(),
                    _ => {}
                }
                if bad {
                    break;
                }
            }
            ensures!(bad, "reading past the end of a proof is an error", "{ops:?}");
        }
        Ok(())
    }
    /// A changed observed byte changes later challenges; a changed decommitment does not.
    fn binding<C: Challenger + Default>(s: &mut NSrc) -> R {
        let ops = script(s);
        let i = s.below(ops.len());
        let mut other = ops.clone();
        let (bound, changed) = match &ops[i] {
            Op::Msg(v) | Op::Dec(v) | Op::Obs(v) => {
                let mut b = v.bytes();
                if b.is_empty() || s.below(4) == 0 {
                    b.push(s.u8());
                } else {
                    let k = s.below(b.len());
                    b[k] ^= 1 << s.below(8);
                }
                let nv = Val::Bytes(b);
                other[i] = match &ops[i] {
                    Op::Msg(_) => Op::Msg(nv),
                    Op::Dec(_) => Op::Dec(nv),
                    _ => Op::Obs(nv),
                };
                (!matches!(ops[i], Op::Dec(_)), true)
            }
            Op::Sample(k, n) => {
                // one more sample: it has to be bound by later observations
                other[i] = Op::Sample(*k, n + 1);
                other.push(Op::Msg(Val::U64(1)));
                (*k == 0 || *k == 3, false)
            }
            Op::Bits(_) => {
                other.insert(i, Op::Bits(7));
                other.push(Op::Msg(Val::U64(1)));
                (true, false)
            }
        };
        let mut base = ops.clone();
        if !changed {
            base.push(Op::Msg(Val::U64(1)));
        }
        let (a, b) = (prove::<C>(&base, s), prove::<C>(&other, s));
        if bound {
            ensures!(a.last != b.last, "a change of an observed byte or of the samples drawn changes later challenges", "{base:?} {other:?}");
        } else {
            ensures!(a.last == b.last && a.chal == b.chal || !changed, "decommitments never influence challenges", "{base:?} {other:?}");
        }
        Ok(())
    }
    /// The boundary between two observed messages may not be shifted past a sample.
    fn order<C: Challenger + Default>(s: &mut NSrc) -> R {
        let x: Vec<u8> = (0..1 + s.below(80)).map(|_| s.u8()).collect();
        let k = s.below(x.len());
        let j = (k + 1 + s.below(x.len())) % (x.len() + 1);
        if j == k || j == 0 || k == 0 {
            return Err(Stop::Vacuous);
        }
        let f = |k: usize| vec![Op::Msg(Val::Bytes(x[..k].to_vec())), Op::Sample(0, 1), Op::Msg(Val::Bytes(x[k..].to_vec())), Op::Msg(Val::U64(3))];
        let (a, b) = (prove::<C>(&f(k), s), prove::<C>(&f(j), s));
        ensures!(a.last != b.last, "a challenge depends on which bytes preceded each earlier challenge");
        Ok(())
    }
    /// Debug markers: matching ones are transparent, a mismatch is detected.
    fn debug_marks(s: &mut NSrc) -> R {
        type C = HasherChallenger<Groestl256>;
        let mut p = ProverTranscript::<C>::new();
        p.set_debug(true);
        let msgs: Vec<String> = (0..1 + s.below(4)).map(|_| (0..s.below(6)).map(|_| (b'a' + s.below(3) as u8) as char).collect()).collect();
        let vals: Vec<u64> = msgs.iter().map(|_| s.u64()).collect();
        for (m, v) in msgs.iter().zip(&vals) {
            p.message().write_debug(m);
            write_u64(&mut p.message(), *v);
        }
        let c: BinaryField128b = p.sample();
        let proof = p.finalize();
        let mut v = VerifierTranscript::<C>::new(proof.clone());
        v.set_debug(true);
        for (m, x) in msgs.iter().zip(&vals) {
            v.message().read_debug(m);
            ensures!(read_u64(&mut v.message()).ok() == Some(*x), "values around debug marks are read back");
        }
        let d: BinaryField128b = v.sample();
        ensures!(c == d, "debug marks keep both sides in step");
        ensures!(v.finalize().is_ok(), "debug marks are consumed");
        if !msgs[0].is_empty() {
            let mut wrong = msgs[0].clone().into_bytes();
            let k = s.below(wrong.len());
            wrong[k] ^= 1;
            let wrong = String::from_utf8(wrong).unwrap();
            ensures!(
                catches(move || {
                    let mut v = VerifierTranscript::<C>::new(proof);
                    v.set_debug(true);
                    v.message().read_debug(&wrong)
                })
                .is_none(),
                "a wrong debug mark is noticed"
            );
        }
        Ok(())
    }
    pub fn register(r: &mut Runner) {
        r.sampled("transcripts_groestl", "ProverTranscript, VerifierTranscript, TranscriptWriter/Reader, HasherChallenger<Groestl256>", 6000, |s| both::<HasherChallenger<Groestl256>, Groestl256>(s));
        r.sampled("transcripts_sha256", "ProverTranscript, VerifierTranscript, TranscriptWriter/Reader, HasherChallenger<Sha256>", 6000, |s| both::<HasherChallenger<Sha>, Sha>(s));
        r.sampled("binding_groestl", "HasherChallenger<Groestl256>", 5000, |s| binding::<HasherChallenger<Groestl256>>(s));
        r.sampled("binding_sha256", "HasherChallenger<Sha256>", 5000, |s| binding::<HasherChallenger<Sha>>(s));
        r.sampled("order_groestl", "HasherChallenger<Groestl256>", 3000, |s| order::<HasherChallenger<Groestl256>>(s));
        r.sampled("debug_marks", "write_debug, read_debug", 1000, debug_marks);
        super::obligations(r);
    }
}

obligations! {
    toy_obs1_sample2, quick, 10, "bounded: these lengths, all bytes, for a 2-byte digest", "HasherChallenger::{observer,sampler}, HasherObserver, HasherSampler", toy_obs_sample::<1, 2>;
    toy_obs3_sample1, quick, 10, "bounded: these lengths, all bytes, for a 2-byte digest", "HasherChallenger::{observer,sampler}, HasherObserver, HasherSampler", toy_obs_sample::<3, 1>;
    toy_obs4_sample3, quick, 10, "bounded: these lengths, all bytes, for a 2-byte digest", "HasherChallenger::{observer,sampler}, HasherObserver, HasherSampler", toy_obs_sample::<4, 3>;
    toy_obs5_sample5, quick, 10, "bounded: these lengths, all bytes, for a 2-byte digest", "HasherChallenger::{observer,sampler}, HasherObserver, HasherSampler", toy_obs_sample::<5, 5>;
    toy_mixed_1_1_1_1, quick, 10, "bounded: these lengths, all bytes, for a 2-byte digest", "HasherChallenger::{observer,sampler}, HasherObserver, HasherSampler", toy_mixed::<1, 1, 1, 1>;
    toy_mixed_2_4_2_3, quick, 10, "bounded: these lengths, all bytes, for a 2-byte digest", "HasherChallenger::{observer,sampler}, HasherObserver, HasherSampler", toy_mixed::<2, 4, 2, 3>;
    toy_mixed_3_5_3_4, quick, 10, "bounded: these lengths, all bytes, for a 2-byte digest", "HasherChallenger::{observer,sampler}, HasherObserver, HasherSampler", toy_mixed::<3, 5, 3, 4>;
    toy_split_2_2, quick, 10, "bounded: these lengths, all bytes, for a 2-byte digest", "HasherObserver::{chunk_mut,advance_mut}, HasherSampler::{chunk,advance}", toy_split::<2, 2>;
    toy_split_3_4, quick, 10, "bounded: these lengths, all bytes, for a 2-byte digest", "HasherObserver::{chunk_mut,advance_mut}, HasherSampler::{chunk,advance}", toy_split::<3, 4>;
}
