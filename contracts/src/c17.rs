//! C17: end-to-end proofs.
use crate::rt::*;
use crate::{ensures, obligations};

obligations! {
}
#[cfg(not(kani))]
pub use native::register;
#[cfg(not(kani))]
mod native {
    use super::*;
    use crate::sys::*;
    use binius_core::constraint_system::channel::FlushDirection;
    use binius_core::constraint_system::{ConstraintSystem, TableSizeSpec};
    use binius_field::arch::OptimalUnderlier;
    use binius_field::Field;

    fn prove_it(y: &Sys) -> Result<Vec<u8>, Stop> {
        let p = proof_of(&y.cs, &y.bounds, &y.sizes, y.witness::<OptimalUnderlier>());
        let Some(Ok(p)) = p else {
            ensures!(false, "the prover proves what is satisfied", "{:?} {} {}", p, last_panic(), y.brief());
            unreachable!()
        };
        let r = verified(&y.cs, &y.bounds, &p);
        ensures!(matches!(r, Some(Ok(()))), "the verifier accepts an honest proof of a satisfied system", "{:?} {} {}", r, last_panic(), y.brief());
        Ok(p)
    }
    /// A proof with any byte altered, removed or appended is rejected, without a panic.
    fn altered(s: &mut NSrc) -> R {
        let y = Sys::random(s, true);
        let p = prove_it(&y)?;
        for _ in 0..12 {
            let mut q = p.clone();
            let i = if s.below(3) == 0 { s.below(p.len().min(64)) } else { s.below(p.len()) };
            let how = s.below(9);
            match how {
                0 | 1 => q[i] ^= 1 << s.below(8),
                2 => q[i] = [0, 1, 0xff, 0x80][s.below(4)],
                3 => q.truncate(i),
                4 => (0..s.range(1, 40)).for_each(|_| q.push(s.u8())),
                5 => {
                    q.remove(i);
                }
                6 => q.insert(i, s.u8()),
                7 => {
                    let v = [0u32, 1, 2, u32::MAX, 1 << 31, 1 << 20][s.below(6)].to_le_bytes();
                    let i = i & !3;
                    (0..4).filter(|k| i + k < p.len()).for_each(|k| q[i + k] = v[k]);
                }
                _ => {
                    let j = s.below(p.len());
                    let n = s.range(1, 32);
                    for k in 0..n {
                        if i + k < q.len() && j + k < q.len() {
                            q.swap(i + k, j + k);
                        }
                    }
                }
            }
            if q == p {
                continue;
            }
            let r = verified(&y.cs, &y.bounds, &q);
            ensures!(r.is_some(), "no proof bytes make the verifier panic", "{} at {} of {}: {} {}", how, i, p.len(), last_panic(), y.brief());
            ensures!(r.as_ref().unwrap().is_err(), "a proof with altered bytes is rejected", "{} at {} of {}: {}", how, i, p.len(), y.brief());
        }
        Ok(())
    }
    /// The table sizes at the head of the proof are the prover's choice: any choice is judged without a panic,
    /// and a choice other than the honest one is rejected.
    fn sizes(s: &mut NSrc) -> R {
        let y = Sys::random(s, true);
        let p = prove_it(&y)?;
        for _ in 0..8 {
            let mut q = p.clone();
            let k = s.below(y.sizes.len());
            let v: u64 = match s.below(4) {
                0 => s.below(9) as u64,
                1 => 1 << s.below(64),
                2 => (1u64 << s.below(64)).wrapping_sub(1),
                _ => s.u64(),
            };
            if v == y.sizes[k] as u64 {
                continue;
            }
            let w = USIZE_BYTES;
            if w == 4 && v > u32::MAX as u64 {
                continue;
            }
            q[k * w..][..w].copy_from_slice(&v.to_le_bytes()[..w]);
            let r = verified(&y.cs, &y.bounds, &q);
            ensures!(r.is_some(), "no table sizes make the verifier panic", "size {} of table {}: {} {}", v, k, last_panic(), y.brief());
            ensures!(r.as_ref().unwrap().is_err(), "a proof with altered bytes is rejected", "size {} of table {} {}", v, k, y.brief());
        }
        Ok(())
    }
    const USIZE_BYTES: usize = 4;
    /// Arbitrary bytes are no proof.
    fn arbitrary(s: &mut NSrc) -> R {
        let y = Sys::random(s, true);
        for _ in 0..4 {
            let n = s.below(4000);
            let mut q: Vec<u8> = (0..n).map(|_| if s.below(4) == 0 { 0 } else { s.u8() }).collect();
            if s.bool() {
                for (k, &v) in y.sizes.iter().enumerate() {
                    if (k + 1) * USIZE_BYTES <= q.len() {
                        q[k * USIZE_BYTES..][..USIZE_BYTES].copy_from_slice(&v.to_le_bytes()[..USIZE_BYTES]);
                    }
                }
            }
            let r = verified(&y.cs, &y.bounds, &q);
            ensures!(r.is_some(), "no proof bytes make the verifier panic", "{} bytes: {} {}", q.len(), last_panic(), y.brief());
            ensures!(r.as_ref().unwrap().is_err(), "arbitrary bytes are rejected");
        }
        Ok(())
    }
    /// A proof is about its constraint system and boundaries only.
    fn statement(s: &mut NSrc) -> R {
        let mut y = Sys::random(s, true);
        let p = prove_it(&y)?;
        for _ in 0..6 {
            let b = y.bounds.clone();
            if y.change_bounds(s) && y.bounds != b {
                // a proof without any challenge (nothing is asked of the columns) says the same of both
                if proof_of(&y.cs, &y.bounds, &y.sizes, y.witness::<OptimalUnderlier>()) == Some(Ok(p.clone())) {
                    y.bounds = b;
                    continue;
                }
                let r = verified(&y.cs, &y.bounds, &p);
                ensures!(r.is_some(), "no boundaries make the verifier panic", "{} {}", last_panic(), y.brief());
                ensures!(r.unwrap().is_err(), "a proof is rejected for other boundaries", "{:?} / {}", b, y.brief());
            }
            y.bounds = b;
        }
        // a system that asks for nothing is satisfied whatever the proof is
        for _ in 0..4 {
            let (c, what) = other(s, &y.cs);
            if c.digest::<binius_hash::groestl::Groestl256>() == y.cs.digest::<binius_hash::groestl::Groestl256>() {
                ensures!(what == 0, "the digest of a constraint system tells it from others", "{} {}", what, y.brief());
                continue;
            }
            if proof_as(&y.cs, &c, &y.bounds, &y.sizes, y.witness::<OptimalUnderlier>()) == Some(Ok(p.clone())) {
                continue;
            }
            let r = verified(&c, &y.bounds, &p);
            ensures!(r.is_some(), "no constraint system makes the verifier panic", "{} {} {}", what, last_panic(), y.brief());
            ensures!(r.unwrap().is_err(), "a proof is rejected for another constraint system", "{} {}", what, y.brief());
        }
        Ok(())
    }
    /// A constraint system that differs in one place (0: none does).
    fn other(s: &mut NSrc, cs: &ConstraintSystem<F>) -> (ConstraintSystem<F>, usize) {
        let mut c = cs.clone();
        let mut what = s.range(1, 8);
        match what {
            1 => c.channel_count += 1,
            2 if !c.flushes.is_empty() => {
                c.flushes.remove(s.below(cs.flushes.len()));
            }
            3 if !c.flushes.is_empty() => c.flushes[s.below(cs.flushes.len())].multiplicity += 1,
            4 if !c.flushes.is_empty() => {
                let x = &mut c.flushes[s.below(cs.flushes.len())];
                x.direction = if x.direction == FlushDirection::Push { FlushDirection::Pull } else { FlushDirection::Push };
            }
            5 if !c.non_zero_oracle_ids.is_empty() => {
                c.non_zero_oracle_ids.pop();
            }
            6 if !c.table_constraints.is_empty() => {
                c.table_constraints.pop();
            }
            7 => {
                let k = s.below(c.table_size_specs.len());
                c.table_size_specs[k] = match c.table_size_specs[k] {
                    TableSizeSpec::Arbitrary => TableSizeSpec::PowerOfTwo,
                    TableSizeSpec::PowerOfTwo => TableSizeSpec::Arbitrary,
                    TableSizeSpec::Fixed { log_size } => TableSizeSpec::Fixed { log_size: log_size + 1 },
                };
            }
            8 if !c.flushes.is_empty() => {
                let x = &mut c.flushes[s.below(cs.flushes.len())];
                x.oracles.push(binius_core::constraint_system::channel::OracleOrConst::Const { base: F::ONE, tower_level: 0 });
            }
            _ => what = 0,
        }
        (c, what)
    }
    pub fn register(r: &mut Runner) {
        super::obligations(r);
        r.sampled("altered", "constraint_system::{prove,verify}, piop, ring_switch, evalcheck, gkr_gpa, FRI and Merkle verifiers", 12, altered);
        r.sampled("sizes", "constraint_system::verify, check_table_sizes, SymbolicMultilinearOracleSet::instantiate", 12, sizes);
        r.sampled("arbitrary", "constraint_system::verify and all verifiers below it", 20, arbitrary);
        r.sampled("statement", "constraint_system::{prove,verify}, ConstraintSystem::digest", 12, statement);
    }
}
