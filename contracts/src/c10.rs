//! C10: sumcheck, zerocheck and equality-indicator sumcheck verifiers and provers.
use crate::rt::*;
use crate::spec::*;
use crate::toy::tape::{self, Tape};
use crate::{ensures, obligations};
use binius_core::protocols::sumcheck::{self, BatchSumcheckOutput, CompositeSumClaim, RoundCoeffs, RoundProof, SumcheckClaim, front_loaded};
use binius_core::transcript::VerifierTranscript;
use binius_field::*;
use binius_math::{ArithCircuit, CompositionPoly, EvaluationOrder};

/// A sum of products of variables, plus one when `c`.
#[derive(Clone, Debug)]
pub struct Terms {
    pub n: usize,
    pub t: Vec<Vec<usize>>,
    pub c: bool,
}
impl Terms {
    pub fn deg(&self) -> usize {
        self.t.iter().map(|t| t.len()).max().unwrap_or(0)
    }
    pub fn at<F: Field>(&self, x: &[F]) -> F {
        let mut r = if self.c { F::ONE } else { F::ZERO };
        for t in &self.t {
            let mut p = F::ONE;
            for &i in t {
                p *= x[i];
            }
            r += p;
        }
        r
    }
}
impl<P: PackedField> CompositionPoly<P> for Terms {
    fn n_vars(&self) -> usize {
        self.n
    }
    fn degree(&self) -> usize {
        self.deg()
    }
    fn expression(&self) -> ArithCircuit<P::Scalar> {
        let mut r = if self.c { ArithCircuit::one() } else { ArithCircuit::zero() };
        for t in &self.t {
            let mut p = ArithCircuit::var(t[0]);
            for &i in &t[1..] {
                p = p * ArithCircuit::var(i);
            }
            r = r + p;
        }
        r
    }
    fn evaluate(&self, q: &[P]) -> Result<P, binius_math::Error> {
        if q.len() != self.n {
            return Err(binius_math::Error::IncorrectQuerySize { expected: self.n, actual: q.len() });
        }
        let mut r = if self.c { P::one() } else { P::zero() };
        for t in &self.t {
            let mut p = P::one();
            for &i in t {
                p *= q[i];
            }
            r += p;
        }
        Ok(r)
    }
    fn binary_tower_level(&self) -> usize {
        0
    }
}

/// The product of two variables, evaluated directly.
#[derive(Clone, Debug)]
struct Two;
impl CompositionPoly<BinaryField4b> for Two {
    fn n_vars(&self) -> usize {
        2
    }
    fn degree(&self) -> usize {
        2
    }
    fn expression(&self) -> ArithCircuit<BinaryField4b> {
        ArithCircuit::var(0) * ArithCircuit::var(1)
    }
    fn evaluate(&self, q: &[BinaryField4b]) -> Result<BinaryField4b, binius_math::Error> {
        Ok(q[0] * q[1])
    }
    fn binary_tower_level(&self) -> usize {
        0
    }
}
type G = BinaryField4b;
/// Any proof and any challenges, one claim over NV variables: accepted exactly if the rounds and the
/// final evaluations are consistent, and the output is what the transcript says.
fn one_claim<const NV: usize, const FRONT: bool, const HIGH: bool>(s: &mut impl Src) -> R {
    let mut t = [0u8; tape::N];
    for x in t.iter_mut().take(1 + NV) {
        *x = s.word(4) as u8;
    }
    tape::set(t);
    let g = |b: u8| G::of(b as u128);
    let sum: G = el(s);
    let p: [u8; 6] = std::array::from_fn(|i| if i < 2 * NV + 2 { s.word(4) as u8 } else { 0 });
    let claim = SumcheckClaim::new(NV, 2, vec![CompositeSumClaim { composition: Two, sum }]).unwrap();
    let mut tr = std::mem::ManuallyDrop::new(VerifierTranscript::<Tape>::new(p[..2 * NV + 2].to_vec()));
    let claims = std::mem::ManuallyDrop::new([claim]);
    let r = if FRONT {
        front_loaded::BatchVerifier::new(&claims[..], &mut *tr).and_then(|v| v.run(&mut tr))
    } else {
        sumcheck::batch_verify(if HIGH { EvaluationOrder::HighToLow } else { EvaluationOrder::LowToHigh }, &claims[..], &mut tr)
    };
    let m = |a: G, b: G| G::of(tmul_def(2, a.raw(), b.raw()));
    let bc = g(t[0]);
    let mut run = m(bc, sum);
    for i in 0..NV {
        let (a0, a1, x) = (g(p[2 * i]), g(p[2 * i + 1]), g(t[1 + i]));
        // r(0) + r(1) is the running claim
        let a2 = run - a1;
        run = a0 + m(x, a1 + m(x, a2));
    }
    let want = m(bc, m(g(p[2 * NV]), g(p[2 * NV + 1])));
    ensures!(r.is_ok() == (run == want), "accepted exactly if rounds and final evaluations are consistent");
    if let Ok(o) = &r {
        ensures!(o.challenges.len() == NV && o.multilinear_evals.len() == 1 && o.multilinear_evals[0].len() == 2, "shape of the output");
        for i in 0..NV {
            ensures!(o.challenges[i] == g(t[if HIGH { NV - i } else { 1 + i }]), "the output point is the sampled challenges");
        }
        ensures!(o.multilinear_evals[0][0] == g(p[2 * NV]) && o.multilinear_evals[0][1] == g(p[2 * NV + 1]), "the output evaluations are those of the proof");
    }
    std::mem::forget(r);
    Ok(())
}
/// The coefficient left out of a round message is the one that makes the values at 0 and 1 add up to the claim.
fn recover<F: Field + Fx, const D: usize>(s: &mut impl Src) -> R {
    let c: [F; D] = std::array::from_fn(|_| el(s));
    let sum: F = el(s);
    let r = RoundProof(RoundCoeffs(c.to_vec())).recover(sum);
    ensures!(r.0.len() == D + 1 && r.0[..D] == c[..], "the coefficients sent are kept");
    let mut at1 = 0u128;
    for x in &r.0 {
        at1 ^= x.raw();
    }
    ensures!(r.0[0].raw() ^ at1 == sum.raw(), "values at 0 and 1 add up to the claim");
    let t = RoundCoeffs(r.0.clone()).truncate();
    ensures!(t.coeffs() == &c[..], "truncation removes the recovered coefficient only");
    Ok(())
}
fn coeff_add<F: Field + Fx, const A: usize, const B: usize>(s: &mut impl Src) -> R {
    let a: [F; A] = std::array::from_fn(|_| el(s));
    let b: [F; B] = std::array::from_fn(|_| el(s));
    let r = RoundCoeffs(a.to_vec()) + &RoundCoeffs(b.to_vec());
    ensures!(r.0.len() == A.max(B), "length of a sum of polynomials");
    for i in 0..A.max(B) {
        let x = a.get(i).map_or(0, |x| x.raw()) ^ b.get(i).map_or(0, |x| x.raw());
        ensures!(r.0[i].raw() == x, "sum of polynomials");
    }
    Ok(())
}
obligations! {
    batch_verify_1, quick, 8, "any proof, claim and challenges over GF(16), 1 variable, degree 2", "sumcheck::batch_verify, interpolate_round_proof, RoundProof::recover", one_claim::<1, false, false>;
    batch_verify_2h, quick, 8, "any proof, claim and challenges over GF(16), 2 variables, degree 2, high to low", "sumcheck::batch_verify", one_claim::<2, false, true>;
    front_loaded_1, quick, 8, "any proof, claim and challenges over GF(16), 1 variable, degree 2", "front_loaded::BatchVerifier", one_claim::<1, true, false>;
    front_loaded_2, thorough, 8, "any proof, claim and challenges over GF(16), 2 variables, degree 2", "front_loaded::BatchVerifier", one_claim::<2, true, false>;
    recover_1, quick, 10, "any degree 1 message over GF(2^128)", "RoundProof::recover, RoundCoeffs::truncate", recover::<BinaryField128b, 1>;
    recover_3, quick, 10, "any degree 3 message over GF(2^128)", "RoundProof::recover, RoundCoeffs::truncate", recover::<BinaryField128b, 3>;
    coeff_add_13, quick, 10, "any polynomials of 1 and 3 coefficients", "RoundCoeffs::add", coeff_add::<BinaryField128b, 1, 3>;
    coeff_add_32, quick, 10, "any polynomials of 3 and 2 coefficients", "RoundCoeffs::add", coeff_add::<BinaryField128b, 3, 2>;
}

#[cfg(not(kani))]
pub use native::register;
#[cfg(not(kani))]
mod native {
    use super::*;
    use crate::requires;
    use binius_compute::cpu::layer::CpuLayerHolder;
    use binius_compute::{ComputeData, ComputeHolder, ComputeLayer, ComputeMemory, alloc::ComputeAllocator, ops::eq_ind_partial_eval};
    use binius_core::composition::{BivariateProduct, IndexComposition};
    use binius_core::fiat_shamir::{CanSample, HasherChallenger};
    use binius_core::oracle::OracleId;
    use binius_core::protocols::sumcheck::prove::{RegularSumcheckProver, SumcheckProver, ZerocheckProverImpl, batch_prove, batch_prove_zerocheck, eq_ind::EqIndSumcheckProverBuilder, front_loaded::BatchProver};
    use binius_core::protocols::sumcheck::v3::{bivariate_mlecheck::BivariateMLEcheckProver, bivariate_product::BivariateSumcheckProver};
    use binius_core::protocols::sumcheck::{EqIndSumcheckClaim, OracleClaimMeta, ZerocheckClaim, batch_verify, batch_verify_zerocheck, eq_ind, make_eval_claims, make_zerocheck_eval_claims};
    use binius_core::transcript::ProverTranscript;
    use binius_fast_compute::layer::FastCpuLayerHolder;
    use binius_field::tower::CanonicalTowerFamily;
    use binius_hal::make_portable_backend;
    use binius_hash::groestl::Groestl256;
    use binius_math::{DefaultEvaluationDomainFactory, IsomorphicEvaluationDomainFactory, MLEEmbeddingAdapter, MLEDirectAdapter, MultilinearExtension};

    type B8 = BinaryField8b;
    type B128 = BinaryField128b;
    type Ch = HasherChallenger<Groestl256>;

    fn mle<F: Field>(v: &[F], r: &[F]) -> F {
        let mut v = v.to_vec();
        for &r in r {
            v = (0..v.len() / 2).map(|i| v[2 * i] + (v[2 * i + 1] - v[2 * i]) * r).collect();
        }
        v[0]
    }
    fn eqv<F: Field>(p: &[F], i: usize) -> F {
        p.iter().enumerate().map(|(k, &x)| if i >> k & 1 == 1 { x } else { F::ONE - x }).product()
    }
    fn terms(s: &mut NSrc, n: usize, maxdeg: usize) -> Terms {
        let k = s.range(1, 3);
        let t = (0..k).map(|_| (0..s.range(1, maxdeg)).map(|_| s.below(n)).collect()).collect();
        Terms { n, t, c: s.bool() }
    }
    fn random_tape(s: &mut NSrc) {
        let mut t = [0u8; tape::N];
        for x in t.iter_mut() {
            *x = s.u8();
        }
        tape::set(t);
    }
    fn lagrange<F: Field>(pts: &[F], x: F) -> Vec<F> {
        (0..pts.len())
            .map(|i| {
                let mut r = F::ONE;
                for j in 0..pts.len() {
                    if i != j {
                        r *= (x - pts[j]) * (pts[i] - pts[j]).invert().unwrap();
                    }
                }
                r
            })
            .collect()
    }
    /// The reference verifier, over one-byte scalars: reads the same proof and challenge bytes.  Checks are recorded in the order in which
    /// a forger can satisfy them, with the byte that controls each.
    struct Ref<'a> {
        p: &'a [u8],
        i: usize,
        tape: Tape,
        fails: Vec<usize>,
        short: bool,
    }
    impl<'a> Ref<'a> {
        fn new(p: &'a [u8]) -> Self {
            Ref { p, i: 0, tape: Tape::default(), fails: vec![], short: false }
        }
        fn read(&mut self, n: usize) -> Vec<B8> {
            (0..n)
                .map(|_| {
                    let r = self.p.get(self.i).copied().unwrap_or_else(|| {
                        self.short = true;
                        0
                    });
                    self.i += 1;
                    B8::new(r)
                })
                .collect()
        }
        fn sample(&mut self) -> B8 {
            use binius_core::fiat_shamir::Challenger;
            use bytes::Buf;
            B8::new(self.tape.sampler().get_u8())
        }
        fn check(&mut self, ok: bool, byte: usize) {
            if !ok {
                self.fails.push(byte)
            }
        }
    }
    fn weighted(c: B8, v: impl Iterator<Item = B8>) -> B8 {
        let mut w = c;
        let mut r = B8::ZERO;
        for x in v {
            r += w * x;
            w *= c;
        }
        r
    }
    fn round(r: &mut Ref, deg: usize, sum: &mut B8) -> B8 {
        let a = r.read(deg);
        let x = r.sample();
        let last = *sum - a[0] - a.iter().copied().sum::<B8>();
        let mut v = last;
        for &c in a.iter().rev() {
            v = v * x + c;
        }
        *sum = v;
        x
    }
    type Cl = (usize, usize, Vec<(Terms, B8)>);
    fn ref_batch(r: &mut Ref, claims: &[Cl], high: bool) -> (Vec<B8>, Vec<Vec<B8>>) {
        let n = claims.first().map_or(0, |c| c.0);
        let (mut sum, mut deg) = (B8::ZERO, 0);
        let mut coeffs = vec![];
        let mut ch = vec![];
        for k in (0..=n).rev() {
            for c in claims.iter().filter(|c| c.0 == k) {
                let b = r.sample();
                coeffs.push(b);
                sum += weighted(b, c.2.iter().map(|x| x.1));
                deg = deg.max(c.2.iter().map(|x| x.0.deg()).max().unwrap_or(0));
            }
            if k > 0 {
                let x = round(r, deg, &mut sum);
                ch.push(x);
            }
        }
        let evals: Vec<Vec<B8>> = claims.iter().map(|c| r.read(c.1)).collect();
        let want: B8 = claims.iter().zip(&coeffs).zip(&evals).map(|((c, &b), e)| weighted(b, c.2.iter().map(|x| x.0.at(e)))).sum();
        let last = r.i - 1;
        r.check(sum == want, last);
        if high {
            ch.reverse();
        }
        (ch, evals)
    }
    fn ref_front(r: &mut Ref, claims: &[Cl], coeffs: Option<(Vec<B8>, B8)>) -> (Vec<B8>, Vec<Vec<B8>>) {
        let (coeffs, mut sum) = coeffs.unwrap_or_else(|| {
            let b: Vec<B8> = claims.iter().map(|_| r.sample()).collect();
            let s = claims.iter().zip(&b).map(|(c, &b)| weighted(b, c.2.iter().map(|x| x.1))).sum();
            (b, s)
        });
        let n = claims.iter().map(|c| c.0).max().unwrap_or(0);
        let (mut ch, mut evals) = (vec![], vec![]);
        for k in 0..=n {
            for (c, &b) in claims.iter().zip(&coeffs).filter(|(c, _)| c.0 == k) {
                let e = r.read(c.1);
                sum -= weighted(b, c.2.iter().map(|x| x.0.at(&e)));
                evals.push(e);
            }
            if k < n {
                let deg = claims.iter().filter(|c| c.0 > k).flat_map(|c| c.2.iter().map(|x| x.0.deg())).max().unwrap_or(0);
                ch.push(round(r, deg, &mut sum));
            }
        }
        let last = r.i.saturating_sub(1);
        r.check(sum == B8::ZERO, last);
        (ch, evals)
    }
    fn claims(s: &mut NSrc, asc: bool, zero: bool) -> Vec<Cl> {
        let k = s.range(1, 3);
        let mut ns: Vec<usize> = (0..k).map(|_| s.below(4)).collect();
        ns.sort();
        if !asc {
            ns.reverse();
        }
        ns.into_iter()
            .map(|n| {
                let m = s.range(1, 3);
                let c = (0..s.range(1, 2)).map(|_| (terms(s, m, 3), if zero { B8::ZERO } else { el(s) })).collect();
                (n, m, c)
            })
            .collect()
    }
    fn real_claims(c: &[Cl]) -> Vec<SumcheckClaim<B8, Terms>> {
        c.iter().map(|c| SumcheckClaim::new(c.0, c.1, c.2.iter().map(|x| CompositeSumClaim { composition: x.0.clone(), sum: x.1 }).collect()).unwrap()).collect()
    }
    type Out = Option<(Vec<B8>, Vec<Vec<B8>>)>;
    /// Makes a random proof acceptable where that is possible by single bytes, then compares the verdicts on it, on every change of one
    /// byte of it, and on truncations and extensions.
    fn game(s: &mut NSrc, rf: &dyn Fn(&mut Ref) -> (Vec<B8>, Vec<Vec<B8>>), real: &dyn Fn(&mut VerifierTranscript<Tape>) -> Result<(Vec<B8>, Vec<Vec<B8>>), sumcheck::Error>) -> R {
        random_tape(s);
        let len = {
            let big = vec![0u8; 2048];
            let mut r = Ref::new(&big);
            rf(&mut r);
            r.i
        };
        let mut p: Vec<u8> = (0..len).map(|_| s.u8()).collect();
        let nfails = |p: &[u8]| {
            let mut r = Ref::new(p);
            rf(&mut r);
            r.fails
        };
        for _ in 0..12 {
            let f = nfails(&p);
            let Some(&b) = f.first() else { break };
            if len == 0 {
                break;
            }
            // a byte shared by no later check, found by search from the end of the message it belongs to
            'search: for b in (0..=b).rev().take(4) {
                for x in 0..=255u8 {
                    let mut q = p.clone();
                    q[b] = x;
                    let g = nfails(&q);
                    if g.len() < f.len() && g[..] == f[1..] {
                        p = q;
                        break 'search;
                    }
                }
            }
        }
        let verdict = |p: &[u8]| -> Result<(bool, bool, Out), Stop> {
            let mut r = Ref::new(p);
            let o = rf(&mut r);
            let want = (!r.short && r.fails.is_empty()).then_some(o);
            let mut t = std::mem::ManuallyDrop::new(VerifierTranscript::<Tape>::new(p.to_vec()));
            let got = catches(|| real(&mut t));
            ensures!(got.is_some(), "a verifier never panics", "proof {:?}", p);
            let got = got.unwrap().ok();
            if want.is_some() && r.i < p.len() {
                ensures!(unsafe { std::mem::ManuallyDrop::take(&mut t) }.finalize().is_err(), "unread proof bytes are refused");
            }
            Ok((got == want, want.is_some(), want))
        };
        let (same, accepted, _) = verdict(&p)?;
        ensures!(same, "the verifier agrees with the definition", "proof {:?}, accepted by the definition: {}", p, accepted);
        for i in 0..len {
            let mut q = p.clone();
            q[i] ^= 1 + s.below(255) as u8;
            let (same, acc, _) = verdict(&q)?;
            ensures!(same, "the verifier agrees with the definition on a changed proof", "proof {:?}, byte {}, accepted by the definition: {}", q, i, acc);
        }
        for q in [&p[..len.saturating_sub(1)], &p[..s.below(len + 1)], &[&p[..], &[7u8]].concat()[..]] {
            let (same, acc, _) = verdict(q)?;
            ensures!(same, "the verifier agrees with the definition on a shortened or extended proof", "proof {:?}, accepted by the definition: {}", q, acc);
        }
        Ok(())
    }
    fn game_batch(s: &mut NSrc) -> R {
        let c = claims(s, false, false);
        let high = s.bool();
        let rc = real_claims(&c);
        let order = if high { EvaluationOrder::HighToLow } else { EvaluationOrder::LowToHigh };
        game(s, &|r| ref_batch(r, &c, high), &|t| batch_verify(order, &rc, t).map(|o| (o.challenges, o.multilinear_evals)))
    }
    fn game_front(s: &mut NSrc) -> R {
        let c = claims(s, true, false);
        let rc = real_claims(&c);
        game(s, &|r| ref_front(r, &c, None), &|t| front_loaded::BatchVerifier::new(&rc, t)?.run(t).map(|o| (o.challenges, o.multilinear_evals)))
    }
    fn game_zero(s: &mut NSrc) -> R {
        let c = claims(s, true, true);
        let n = c.last().unwrap().0;
        let skip = s.below(n + 1);
        let deg = c.iter().flat_map(|c| c.2.iter().map(|x| x.0.deg())).max().unwrap();
        let dom: Vec<B8> = (0..deg << skip).map(|i| B8::new(i as u8)).collect();
        let zc: Vec<ZerocheckClaim<B8, Terms>> = c.iter().map(|c| ZerocheckClaim::new(c.0, c.1, c.2.iter().map(|x| x.0.clone()).collect()).unwrap()).collect();
        let rf = |r: &mut Ref| {
            let ec: Vec<B8> = (0..n - skip).map(|_| r.sample()).collect();
            let coeffs: Vec<B8> = c.iter().map(|_| r.sample()).collect();
            let evs = r.read((deg - 1) << skip);
            let u = r.sample();
            let l = lagrange(&dom, u);
            let sum = evs.iter().zip(&l[1 << skip..]).map(|(&a, &b)| a * b).sum();
            // compositions times the equality indicator, which is the last multilinear
            let c2: Vec<Cl> = c
                .iter()
                .map(|c| {
                    let cs = c
                        .2
                        .iter()
                        .map(|(t, z)| {
                            let mut tt: Vec<Vec<usize>> = t.t.iter().map(|t| [&t[..], &[c.1]].concat()).collect();
                            if t.c {
                                tt.push(vec![c.1]);
                            }
                            (Terms { n: c.1 + 1, t: tt, c: false }, *z)
                        })
                        .collect();
                    (c.0.saturating_sub(skip), c.1 + 1, cs)
                })
                .collect();
            let at = r.i;
            let (mut ch, mut ev) = ref_front(r, &c2, Some((coeffs, sum)));
            ch.reverse();
            // positions of the indicator's evaluations, to satisfy these checks first
            let front = std::mem::take(&mut r.fails);
            let _ = at;
            let mut pos = at;
            let nn = c2.last().unwrap().0;
            let mut fails = vec![];
            let mut k = 0;
            for v in 0..=nn {
                for c in c2.iter().filter(|c| c.0 == v) {
                    pos += c.1;
                    let want: B8 = (0..v).map(|j| B8::ONE + ch[nn - 1 - j] + ec[nn - 1 - j]).product();
                    if ev[k].pop().unwrap() != want {
                        fails.push(pos - 1);
                    }
                    k += 1;
                }
                if v < nn {
                    pos += c2.iter().filter(|c| c.0 > v).flat_map(|c| c.2.iter().map(|x| x.0.deg())).max().unwrap();
                }
            }
            fails.extend(front.iter().map(|b| b.saturating_sub(1)));
            let all: Vec<B8> = ev.concat();
            let m = all.len();
            let red: Vec<Cl> = vec![(skip, m + 1, all.iter().enumerate().map(|(i, &e)| (Terms { n: m + 1, t: vec![vec![i, m]], c: false }, e)).collect())];
            let (mut sk, mut out) = ref_front(r, &red, None);
            sk.reverse();
            let last = std::mem::take(&mut r.fails);
            let lg = lagrange(&dom[..1 << skip], u);
            let mut out = out.pop().unwrap();
            if out.pop().unwrap() != mle(&lg, &sk) {
                fails.push(r.i - 1);
            }
            fails.extend(last.iter().map(|b| b.saturating_sub(1)));
            r.fails = fails;
            (sk.into_iter().chain(ch).collect(), vec![out])
        };
        game(s, &rf, &|t| {
            batch_verify_zerocheck(&zc, skip, t).map(|o| {
                assert!(o.skipped_challenges.len() == skip);
                ([o.skipped_challenges, o.unskipped_challenges].concat(), vec![o.concat_multilinear_evals])
            })
        })
    }

    // ---- provers ----
    struct Batch<F: Field> {
        n: usize,
        vals: Vec<Vec<F>>,
        comps: Vec<Terms>,
    }
    fn pick_batch<PW: PackedField>(s: &mut NSrc, n: usize, maxdeg: usize) -> (Batch<PW::Scalar>, Vec<MultilinearExtension<PW>>) {
        let m = s.range(1, 3);
        let mut rng = rng_of(s);
        let vals: Vec<Vec<PW::Scalar>> = (0..m).map(|_| (0..1 << n).map(|_| <PW::Scalar as Field>::random(&mut rng)).collect()).collect();
        let mles = vals.iter().map(|v| ext::<PW>(n, v)).collect();
        let comps = (0..s.range(1, 2)).map(|_| terms(s, m, maxdeg)).collect();
        (Batch { n, vals, comps }, mles)
    }
    fn ext<PW: PackedField>(n: usize, v: &[PW::Scalar]) -> MultilinearExtension<PW> {
        MultilinearExtension::new(n, v.chunks(PW::WIDTH).map(|c| PW::from_scalars(c.iter().copied())).collect()).unwrap()
    }
    impl<F: Field> Batch<F> {
        fn up<E: Field + From<F>>(&self) -> Vec<Vec<E>> {
            self.vals.iter().map(|v| v.iter().map(|&x| E::from(x)).collect()).collect()
        }
        fn row<E: Field + From<F>>(&self, i: usize) -> Vec<E> {
            self.vals.iter().map(|v| E::from(v[i])).collect()
        }
        fn sums<E: Field + From<F>>(&self, w: impl Fn(usize) -> E) -> Vec<CompositeSumClaim<E, Terms>> {
            self.comps.iter().map(|c| CompositeSumClaim { composition: c.clone(), sum: (0..1 << self.n).map(|i| w(i) * c.at(&self.row::<E>(i))).sum() }).collect()
        }
    }
    fn order(s: &mut NSrc) -> EvaluationOrder {
        if s.bool() { EvaluationOrder::HighToLow } else { EvaluationOrder::LowToHigh }
    }
    fn honest_sumcheck<PW, P, FD>(s: &mut NSrc, front: bool) -> R
    where
        PW: PackedField,
        P: PackedField<Scalar = B128> + PackedExtension<B128, PackedSubfield = P> + RepackedExtension<PW> + PackedExtension<FD>,
        FD: BinaryField,
        B128: ExtensionField<PW::Scalar> + ExtensionField<FD>,
    {
        let k = s.range(1, 3);
        let mut ns: Vec<usize> = (0..k).map(|_| s.below(7)).collect();
        ns.sort();
        if !front {
            ns.reverse();
        }
        let ord = order(s);
        let backend = make_portable_backend();
        let df = IsomorphicEvaluationDomainFactory::<FD>::default();
        let (mut bs, mut claims, mut provers) = (vec![], vec![], vec![]);
        for n in ns {
            let (b, mles) = pick_batch::<PW>(s, n, 4);
            let sums = b.sums::<B128>(|_| B128::ONE);
            claims.push(SumcheckClaim::new(n, b.vals.len(), sums.clone()).unwrap());
            let sw = s.below(n + 2);
            let ml = mles.into_iter().map(MLEEmbeddingAdapter::<PW, P, _>::from).collect::<Vec<_>>();
            provers.push(RegularSumcheckProver::<FD, P, _, _, _>::new(ord, ml, sums, df.clone(), move |_| sw, &backend).unwrap());
            bs.push(b);
        }
        let mut tr = ProverTranscript::<Ch>::new();
        let po = if front { BatchProver::new(provers, &mut tr).unwrap().run(&mut tr) } else { batch_prove(provers, &mut tr) };
        ensures!(po.is_ok(), "the prover completes");
        let po = po.unwrap();
        let ps: B128 = tr.sample();
        let mut v = tr.into_verifier();
        let vo = if front { front_loaded::BatchVerifier::new(&claims, &mut v).unwrap().run(&mut v) } else { batch_verify(ord, &claims, &mut v) };
        ensures!(vo.is_ok(), "an honest proof is accepted", "{:?}, order {:?}", bs.iter().map(|b| (b.n, b.comps.clone())).collect::<Vec<_>>(), ord);
        let vo = vo.unwrap();
        ensures!(po == vo, "prover and verifier have the same output");
        let vs: B128 = v.sample();
        ensures!(ps == vs && v.finalize().is_ok(), "prover and verifier end in the same state");
        let high = matches!(ord, EvaluationOrder::HighToLow);
        for (b, e) in bs.iter().zip(&vo.multilinear_evals) {
            let c = &vo.challenges;
            let pt: Vec<B128> = match (front, high) {
                (false, false) => c[c.len() - b.n..].to_vec(),
                (false, true) => c[..b.n].to_vec(),
                (true, false) => c[..b.n].to_vec(),
                (true, true) => c[..b.n].iter().rev().copied().collect(),
            };
            let want: Vec<B128> = b.up::<B128>().iter().map(|v| mle(v, &pt)).collect();
            ensures!(*e == want, "the output evaluations are those of the multilinears at the output point", "front loaded {}, {:?}, n {}", front, ord, b.n);
        }
        if front {
            // the same output as evaluation claims
            let metas = bs.iter().enumerate().map(|(i, b)| OracleClaimMeta { n_vars: b.n, oracle_ids: (0..b.vals.len()).map(|j| OracleId::from_index(10 * i + j)).collect() });
            let mut o = vo;
            if high {
                o.challenges.reverse();
            }
            let cs = make_eval_claims(ord, metas, o);
            ensures!(cs.is_ok(), "outputs become evaluation claims");
            for c in cs.unwrap() {
                let (i, j) = (c.id.index() / 10, c.id.index() % 10);
                ensures!(c.eval_point.len() == bs[i].n && c.eval == mle(&bs[i].up::<B128>()[j], &c.eval_point), "every evaluation claim made of an honest output is true");
            }
        }
        Ok(())
    }
    fn zeroed<PW: PackedField>(s: &mut NSrc, n: usize, skip: usize) -> (Batch<PW::Scalar>, Vec<MultilinearExtension<PW>>) {
        // multilinears x0.. random and compositions that vanish: pairs (product of variables, its value) = x_k - prod
        let _ = skip;
        let m = s.range(1, 3);
        let mut rng = rng_of(s);
        let mut vals: Vec<Vec<PW::Scalar>> = (0..m).map(|_| (0..1 << n).map(|_| <PW::Scalar as Field>::random(&mut rng)).collect()).collect();
        let mut comps = vec![];
        let base: Vec<Terms> = (0..s.range(1, 2)).map(|_| terms(s, m, 3)).collect();
        for (k, t) in base.iter().enumerate() {
            vals.push((0..1 << n).map(|i| t.at(&vals[..m].iter().map(|v| v[i]).collect::<Vec<_>>())).collect());
            let mut tt = t.clone();
            tt.t.push(vec![m + k]);
            comps.push(tt);
        }
        let nn = vals.len();
        for c in &mut comps {
            c.n = nn;
        }
        let mles = vals.iter().map(|v| ext::<PW>(n, v)).collect();
        (Batch { n, vals, comps }, mles)
    }
    fn honest_zerocheck<PW, P, FB, FD>(s: &mut NSrc) -> R
    where
        PW: PackedField,
        P: PackedField<Scalar = B128> + PackedExtension<B128, PackedSubfield = P> + RepackedExtension<PW> + PackedExtension<FB> + PackedExtension<FD>,
        FD: TowerField,
        FB: TowerField + ExtensionField<FD>,
        B128: ExtensionField<PW::Scalar> + ExtensionField<FB> + ExtensionField<FD>,
    {
        let k = s.range(1, 3);
        let mut ns: Vec<usize> = (0..k).map(|_| s.below(6)).collect();
        ns.sort();
        let n = ns[k - 1];
        let skip = s.below(n + 1);
        let backend = make_portable_backend();
        let df = IsomorphicEvaluationDomainFactory::<FD>::default();
        let mut tr = ProverTranscript::<Ch>::new();
        let ec: Vec<B128> = tr.sample_vec(n - skip);
        let (mut bs, mut claims, mut provers) = (vec![], vec![], vec![]);
        for &nv in &ns {
            let (b, mles) = zeroed::<PW>(s, nv, skip);
            claims.push(ZerocheckClaim::new(nv, b.vals.len(), b.comps.clone()).unwrap());
            let ml = mles.into_iter().map(MLEEmbeddingAdapter::<PW, P, _>::from).collect::<Vec<_>>();
            let cs: Vec<(String, Terms, Terms)> = b.comps.iter().map(|c| ("c".into(), c.clone(), c.clone())).collect();
            provers.push(ZerocheckProverImpl::<FD, FB, P, _, _, _, _, _>::new(ml, cs, &ec[n - nv.max(skip)..], df.clone(), &backend).unwrap());
            bs.push(b);
        }
        let shape = || format!("sizes {:?}, skip {}, compositions {:?}", ns, skip, bs.iter().map(|b| b.comps.clone()).collect::<Vec<_>>());
        let po = catches(|| batch_prove_zerocheck::<B128, FD, P, _, _>(provers, skip, &mut tr));
        ensures!(matches!(po, Some(Ok(_))), "the prover completes", "{}", shape());
        let po = po.unwrap().unwrap();
        let ps: B128 = tr.sample();
        let bytes = tr.finalize();
        let mut v = VerifierTranscript::<Ch>::new(bytes.clone());
        let vo = batch_verify_zerocheck(&claims, skip, &mut v);
        ensures!(vo.is_ok(), "an honest proof is accepted", "{}: {:?}", shape(), vo.err());
        let vo = vo.unwrap();
        ensures!(
            po.skipped_challenges == vo.skipped_challenges && po.unskipped_challenges == vo.unskipped_challenges && po.concat_multilinear_evals == vo.concat_multilinear_evals,
            "prover and verifier have the same output"
        );
        let vs: B128 = v.sample();
        ensures!(ps == vs && v.finalize().is_ok(), "prover and verifier end in the same state");
        let metas = || bs.iter().enumerate().map(|(i, b)| OracleClaimMeta { n_vars: b.n, oracle_ids: (0..b.vals.len()).map(|j| OracleId::from_index(10 * i + j)).collect() });
        let truth = |c: &binius_core::protocols::evalcheck::EvalcheckMultilinearClaim<B128>| {
            let (i, j) = (c.id.index() / 10, c.id.index() % 10);
            c.eval_point.len() == bs[i].n && c.eval == mle(&bs[i].up::<B128>()[j], &c.eval_point)
        };
        let cs = make_zerocheck_eval_claims(metas(), vo);
        ensures!(cs.is_ok(), "outputs become evaluation claims");
        let cs = cs.unwrap();
        ensures!(cs.len() == bs.iter().map(|b| b.vals.len()).sum::<usize>() && cs.iter().all(truth), "every evaluation claim of an honest proof is true", "{}", shape());
        // an altered proof is refused, or leads to a claim that is false
        let at = s.below(bytes.len().max(1));
        if bytes.len() > 0 {
            let mut q = bytes.clone();
            q[at] ^= 1 << s.below(8);
            let mut v = VerifierTranscript::<Ch>::new(q);
            let r = catches(|| batch_verify_zerocheck(&claims, skip, &mut v));
            ensures!(r.is_some(), "a verifier never panics");
            if let Ok(o) = r.unwrap() {
                let cs = make_zerocheck_eval_claims(metas(), o).unwrap();
                ensures!(!cs.iter().all(truth), "an altered proof is refused or leads to a false claim", "{} byte {}", shape(), at);
            }
        }
        Ok(())
    }
    /// A multilinear that does not vanish cannot be shown to, even by the prover itself.
    fn dishonest_zerocheck(s: &mut NSrc) -> R {
        let n = s.range(1, 4);
        let skip = s.below(n + 1);
        let backend = make_portable_backend();
        let df = IsomorphicEvaluationDomainFactory::<B8>::default();
        let (mut b, _) = zeroed::<PackedBinaryField16x8b>(s, n, skip);
        let j = s.below(b.vals.len() - b.comps.len()) ;
        let j = if s.bool() { b.vals.len() - 1 } else { j };
        let i = s.below(1 << n);
        b.vals[j][i] += B8::new(1 + s.below(255) as u8);
        requires!((0..1 << n).any(|i| b.comps.iter().any(|c| c.at(&b.row::<B128>(i)) != B128::ZERO)));
        let mut tr = ProverTranscript::<Ch>::new();
        let ec: Vec<B128> = tr.sample_vec(n - skip);
        let ml = b.vals.iter().map(|v| MLEEmbeddingAdapter::<PackedBinaryField16x8b, PackedBinaryField1x128b, _>::from(ext(n, v))).collect::<Vec<_>>();
        let cs: Vec<(String, Terms, Terms)> = b.comps.iter().map(|c| ("c".into(), c.clone(), c.clone())).collect();
        let p = ZerocheckProverImpl::<B8, B8, PackedBinaryField1x128b, _, _, _, _, _>::new(ml, cs, &ec, df, &backend).unwrap();
        let po = catches(|| batch_prove_zerocheck::<B128, B8, PackedBinaryField1x128b, _, _>(vec![p], skip, &mut tr));
        if !matches!(po, Some(Ok(_))) {
            return Ok(());
        }
        let mut v = tr.into_verifier();
        let claim = ZerocheckClaim::new(n, b.vals.len(), b.comps.clone()).unwrap();
        let r = catches(|| batch_verify_zerocheck(&[claim], skip, &mut v));
        ensures!(r.is_some(), "a verifier never panics");
        if let Ok(o) = r.unwrap() {
            let pt = [o.skipped_challenges, o.unskipped_challenges].concat();
            let same = b.up::<B128>().iter().zip(&o.concat_multilinear_evals).all(|(v, &e)| mle(v, &pt) == e);
            ensures!(!same, "a witness that does not vanish is not shown to", "n {} skip {}", n, skip);
        }
        Ok(())
    }
    fn honest_eq_ind<PW, P, FD>(s: &mut NSrc) -> R
    where
        PW: PackedField,
        P: PackedField<Scalar = B128> + PackedExtension<B128, PackedSubfield = P> + RepackedExtension<PW> + PackedExtension<FD>,
        FD: BinaryField,
        B128: ExtensionField<PW::Scalar> + ExtensionField<FD>,
    {
        let k = s.range(1, 2);
        let mut ns: Vec<usize> = (0..k).map(|_| s.below(6)).collect();
        ns.sort();
        ns.reverse();
        let n = ns[0];
        let ord = order(s);
        let backend = make_portable_backend();
        let df = DefaultEvaluationDomainFactory::<FD>::default();
        let mut rng = rng_of(s);
        let ec: Vec<B128> = (0..n).map(|_| <B128 as Field>::random(&mut rng)).collect();
        let (mut bs, mut claims, mut provers) = (vec![], vec![], vec![]);
        for &nv in &ns {
            let (mut b, _) = pick_batch::<PW>(s, nv, 3);
            // constant suffixes
            let mut suf = vec![];
            for v in b.vals.iter_mut() {
                let l = if s.bool() { 0 } else { s.below((1 << nv) + 1) };
                let c = <PW::Scalar as Field>::random(&mut rng);
                for x in v.iter_mut().rev().take(l) {
                    *x = c;
                }
                suf.push((B128::from(c), l));
            }
            let mles: Vec<_> = b.vals.iter().map(|v| ext::<PW>(nv, v)).collect();
            // low to high binds prefixes last: the shared challenges are those of the last rounds
            let pt: Vec<B128> = ec[n - nv..].to_vec();
            let pt = if matches!(ord, EvaluationOrder::HighToLow) { ec[..nv].to_vec() } else { pt };
            let sums = b.sums::<B128>(|i| eqv(&pt, i));
            claims.push(EqIndSumcheckClaim::new(nv, b.vals.len(), sums.clone()).unwrap());
            let sw = s.below(nv + 2);
            let ml = mles.into_iter().map(MLEEmbeddingAdapter::<PW, P, _>::from).collect::<Vec<_>>();
            let mut bl = EqIndSumcheckProverBuilder::with_switchover(ml, move |_| sw, &backend).unwrap();
            if s.bool() {
                bl = bl.with_const_suffixes(&suf).unwrap();
            }
            provers.push(bl.build::<FD, _>(ord, &pt, sums, df.clone()).unwrap());
            bs.push(b);
        }
        let mut tr = ProverTranscript::<Ch>::new();
        let shape = || format!("sizes {:?}, {:?}, compositions {:?}", ns, ord, bs.iter().map(|b| b.comps.clone()).collect::<Vec<_>>());
        let po = catches(|| batch_prove(provers, &mut tr));
        ensures!(matches!(po, Some(Ok(_))), "the prover completes", "{}", shape());
        let mut v = tr.into_verifier();
        let reg = eq_ind::reduce_to_regular_sumchecks(&claims).unwrap();
        let vo = batch_verify(ord, &reg, &mut v);
        ensures!(vo.is_ok(), "an honest proof is accepted", "{}", shape());
        let vo = vo.unwrap();
        let high = matches!(ord, EvaluationOrder::HighToLow);
        if k == 1 || ns[0] == ns[1] || !high {
            let eo = eq_ind::verify_sumcheck_outputs(eq_ind::ClaimsSortingOrder::DescendingVars, &claims, &ec, vo);
            ensures!(eo.is_ok(), "the indicator evaluations of an honest proof are accepted", "{}", shape());
            let eo = eo.unwrap();
            for (b, e) in bs.iter().zip(&eo.multilinear_evals) {
                let pt = eo.challenges[n - b.n..].to_vec();
                let want: Vec<B128> = b.up::<B128>().iter().map(|v| mle(v, &pt)).collect();
                ensures!(*e == want, "the output evaluations are those of the multilinears at the output point", "{}", shape());
            }
        }
        Ok(())
    }
    trait Mk {
        type H: ComputeHolder<B128, Self::L>;
        type L: ComputeLayer<B128>;
        fn mk() -> Self::H;
    }
    struct Cpu;
    struct Fast;
    impl Mk for Cpu {
        type H = CpuLayerHolder<B128>;
        type L = binius_compute::cpu::CpuLayer<B128>;
        fn mk() -> Self::H {
            CpuLayerHolder::new(1 << 11, 1 << 14)
        }
    }
    impl Mk for Fast {
        type H = FastCpuLayerHolder<CanonicalTowerFamily, PackedBinaryField1x128b>;
        type L = binius_fast_compute::layer::FastCpuLayer<CanonicalTowerFamily, PackedBinaryField1x128b>;
        fn mk() -> Self::H {
            FastCpuLayerHolder::new(1 << 11, 1 << 14)
        }
    }
    fn bivariate<M: Mk>(s: &mut NSrc, mlecheck: bool) -> R {
        let n = s.below(6);
        let m = s.range(2, 4);
        let mut rng = rng_of(s);
        let vals: Vec<Vec<B128>> = (0..m).map(|_| (0..1 << n).map(|_| <B128 as Field>::random(&mut rng)).collect()).collect();
        let ec: Vec<B128> = (0..n).map(|_| <B128 as Field>::random(&mut rng)).collect();
        let ix: Vec<[usize; 2]> = (0..s.range(1, 3)).map(|_| [s.below(m), s.below(m)]).collect();
        let sums: Vec<CompositeSumClaim<B128, IndexComposition<BivariateProduct, 2>>> = ix
            .iter()
            .map(|x| CompositeSumClaim {
                composition: IndexComposition::new(m, *x, BivariateProduct::default()).unwrap(),
                sum: (0..1 << n).map(|i| vals[x[0]][i] * vals[x[1]][i] * if mlecheck { eqv(&ec, i) } else { B128::ONE }).sum(),
            })
            .collect();
        let mut h = M::mk();
        let ComputeData { hal, mut dev_alloc, mut host_alloc, .. } = h.to_data();
        let host = host_alloc.subscope_allocator();
        let dev = dev_alloc.subscope_allocator();
        let mut d = vec![];
        for v in &vals {
            let hb = host.alloc(1 << n).unwrap();
            hb.copy_from_slice(v);
            let mut x = dev.alloc(1 << n).unwrap();
            hal.copy_h2d(hb, &mut x).unwrap();
            d.push(x);
        }
        let dc: Vec<_> = d.iter().map(|x| <M::L as ComputeLayer<B128>>::DevMem::as_const(x)).collect();
        let mut tr = ProverTranscript::<Ch>::new();
        let mut ext = vec![];
        let claims = if mlecheck {
            let claim = EqIndSumcheckClaim::new(n, m, sums).unwrap();
            let e = eq_ind_partial_eval(hal, &dev, &ec[..n.saturating_sub(1)]).unwrap();
            let e = <M::L as ComputeLayer<B128>>::DevMem::to_const(e);
            let p = BivariateMLEcheckProver::new(hal, &dev, &host, &claim, dc, e, ec.clone()).unwrap();
            let r = BatchProver::new(vec![p], &mut tr).unwrap().run(&mut tr);
            ensures!(r.is_ok(), "the prover completes");
            ext.push(claim);
            None
        } else {
            let claim = SumcheckClaim::new(n, m, sums).unwrap();
            let p = BivariateSumcheckProver::new(hal, &dev, &host, &claim, dc).unwrap();
            let r = BatchProver::new(vec![p], &mut tr).unwrap().run(&mut tr);
            ensures!(r.is_ok(), "the prover completes");
            Some([claim])
        };
        let mut v = tr.into_verifier();
        let vo = match &claims {
            Some(c) => front_loaded::BatchVerifier::new(c, &mut v).unwrap().run(&mut v),
            None => {
                let c = eq_ind::reduce_to_regular_sumchecks(&ext).unwrap();
                front_loaded::BatchVerifier::new(&c, &mut v).unwrap().run(&mut v).and_then(|mut o| {
                    o.challenges.reverse();
                    let mut o = eq_ind::verify_sumcheck_outputs(eq_ind::ClaimsSortingOrder::AscendingVars, &ext, &ec, o)?;
                    o.challenges.reverse();
                    Ok(o)
                })
            }
        };
        ensures!(vo.is_ok() && v.finalize().is_ok(), "an honest proof is accepted", "n {} m {} {:?} mlecheck {}", n, m, ix, mlecheck);
        let vo = vo.unwrap();
        let pt: Vec<B128> = vo.challenges.iter().rev().copied().collect();
        let want: Vec<B128> = vals.iter().map(|v| mle(v, &pt)).collect();
        ensures!(vo.multilinear_evals == [want], "the output evaluations are those of the multilinears at the output point");
        Ok(())
    }
    /// Claims that do not fit are refused.
    fn malformed(s: &mut NSrc) -> R {
        let n = s.range(1, 3);
        let t = terms(s, n, 2);
        let m = s.below(6);
        let r = SumcheckClaim::<B8, _>::new(3, m, vec![CompositeSumClaim { composition: t.clone(), sum: B8::ONE }]);
        ensures!(r.is_ok() == (m == n), "a composition over another number of multilinears is refused");
        ensures!(EqIndSumcheckClaim::<B8, _>::new(3, m, vec![CompositeSumClaim { composition: t.clone(), sum: B8::ONE }]).is_ok() == (m == n), "a composition over another number of multilinears is refused");
        ensures!(ZerocheckClaim::<B8, _>::new(3, m, vec![t.clone()]).is_ok() == (m == n), "a composition over another number of multilinears is refused");
        // order of the claims
        let ns: Vec<usize> = (0..s.range(2, 4)).map(|_| s.below(4)).collect();
        let cs: Vec<SumcheckClaim<B8, Terms>> = ns.iter().map(|&v| SumcheckClaim::new(v, n, vec![CompositeSumClaim { composition: t.clone(), sum: B8::ZERO }]).unwrap()).collect();
        let zs: Vec<ZerocheckClaim<B8, Terms>> = ns.iter().map(|&v| ZerocheckClaim::new(v, n, vec![t.clone()]).unwrap()).collect();
        random_tape(s);
        let (asc, desc) = (ns.windows(2).all(|w| w[0] <= w[1]), ns.windows(2).all(|w| w[0] >= w[1]));
        let tr = || VerifierTranscript::<Tape>::new(vec![0; 500]);
        let r = catches(|| {
            (
                matches!(batch_verify(EvaluationOrder::LowToHigh, &cs, &mut tr()), Err(sumcheck::Error::ClaimsOutOfOrder)),
                matches!(front_loaded::BatchVerifier::new(&cs, &mut tr()).map(|_| ()), Err(sumcheck::Error::ClaimsOutOfOrder)),
                matches!(batch_verify_zerocheck(&zs, 0, &mut tr()), Err(sumcheck::Error::ClaimsOutOfOrder)),
                batch_verify_zerocheck(&zs, 5, &mut tr()).is_err(),
            )
        });
        ensures!(r.is_some(), "a verifier never panics", "{:?}", ns);
        let r = r.unwrap();
        ensures!(r.0 == !desc && r.1 == !asc && r.2 == !asc && r.3, "claims out of order, or more skipped rounds than variables, are refused", "{:?} {:?}", ns, r);
        // outputs of the wrong shape
        let e: Vec<EqIndSumcheckClaim<B8, Terms>> = ns.iter().map(|&v| EqIndSumcheckClaim::new(v, n, vec![CompositeSumClaim { composition: t.clone(), sum: B8::ZERO }]).unwrap()).collect();
        let k = s.below(4);
        let mx = *ns.iter().max().unwrap();
        let (nc, ne, nl) = (mx + (k == 1) as usize, ns.len() - (k == 2) as usize, n + 1 + (k == 3) as usize);
        let ecs: Vec<B8> = (0..mx).map(|_| el(s)).collect();
        // at the point of the challenges the indicator is 1 on 0/1 points only, so use 0/1 points
        let ecs: Vec<B8> = ecs.iter().map(|x| if x.raw() & 1 == 1 { B8::ONE } else { B8::ZERO }).collect();
        let mut ch = ecs.clone();
        ch.resize(nc, B8::ONE);
        let o = BatchSumcheckOutput { challenges: ch, multilinear_evals: vec![vec![B8::ONE; nl]; ne] };
        let r = catches(|| eq_ind::verify_sumcheck_outputs(eq_ind::ClaimsSortingOrder::AscendingVars, &e, &ecs, o).is_ok());
        ensures!(r == Some(k == 0 && asc), "outputs of the wrong shape are refused", "case {} {:?} {:?}", k, ns, r);
        Ok(())
    }
    pub fn register(r: &mut Runner) {
        super::obligations(r);
        r.sampled("game_batch_verify", "sumcheck::batch_verify", 800, game_batch);
        r.sampled("game_front_loaded", "front_loaded::BatchVerifier", 800, game_front);
        r.sampled("game_zerocheck", "batch_verify_zerocheck, verify_reduction_sumcheck_output, verify_sumcheck_outputs", 800, game_zero);
        macro_rules! sc {
            ($($nm:literal $pw:ty, $p:ty, $fd:ty;)*) => {$(
                r.sampled(concat!("batch_", $nm), "batch_prove, RegularSumcheckProver, batch_verify", 150, |s| honest_sumcheck::<$pw, $p, $fd>(s, false));
                r.sampled(concat!("front_", $nm), "front_loaded::{BatchProver,BatchVerifier}, make_eval_claims", 150, |s| honest_sumcheck::<$pw, $p, $fd>(s, true));
                r.sampled(concat!("eq_ind_", $nm), "EqIndSumcheckProverBuilder, verify_sumcheck_outputs", 150, honest_eq_ind::<$pw, $p, $fd>);
            )*};
        }
        sc! {
            "8b_1x128" PackedBinaryField16x8b, PackedBinaryField1x128b, BinaryField8b;
            "1b_1x128" PackedBinaryField128x1b, PackedBinaryField1x128b, BinaryField8b;
            "128b_2x128" PackedBinaryField2x128b, PackedBinaryField2x128b, BinaryField8b;
            "32b_4x128" PackedBinaryField16x32b, PackedBinaryField4x128b, BinaryField16b;
        }
        macro_rules! zc {
            ($($nm:literal $pw:ty, $p:ty, $fb:ty, $fd:ty;)*) => {$(
                r.sampled(concat!("zerocheck_", $nm), "batch_prove_zerocheck, ZerocheckProverImpl, zerocheck_univariate_evals, batch_verify_zerocheck, make_zerocheck_eval_claims", 150, honest_zerocheck::<$pw, $p, $fb, $fd>);
            )*};
        }
        zc! {
            "8b_1x128" PackedBinaryField16x8b, PackedBinaryField1x128b, BinaryField8b, BinaryField8b;
            "1b_1x128" PackedBinaryField128x1b, PackedBinaryField1x128b, BinaryField8b, BinaryField8b;
            "8b_4x128" PackedBinaryField64x8b, PackedBinaryField4x128b, BinaryField16b, BinaryField8b;
            "32b_2x128" PackedBinaryField8x32b, PackedBinaryField2x128b, BinaryField32b, BinaryField16b;
        }
        r.sampled("zerocheck_dishonest", "batch_verify_zerocheck", 200, dishonest_zerocheck);
        r.sampled("bivariate_cpu", "v3 BivariateSumcheckProver on CpuLayer", 100, |s| bivariate::<Cpu>(s, false));
        r.sampled("bivariate_fast", "v3 BivariateSumcheckProver on FastCpuLayer", 100, |s| bivariate::<Fast>(s, false));
        r.sampled("mlecheck_cpu", "v3 BivariateMLEcheckProver on CpuLayer", 100, |s| bivariate::<Cpu>(s, true));
        r.sampled("mlecheck_fast", "v3 BivariateMLEcheckProver on FastCpuLayer", 100, |s| bivariate::<Fast>(s, true));
        r.sampled("malformed", "SumcheckClaim::new, ZerocheckClaim::new, EqIndSumcheckClaim::new, batch_verify, verify_sumcheck_outputs", 500, malformed);
    }
}
