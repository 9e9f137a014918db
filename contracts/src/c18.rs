//! C18: witness validation and channel balance.
use crate::rt::*;
use crate::spec::*;
use crate::{ensures, obligations};

obligations! {
}
/// Table sizes are accepted exactly if each is what its specification allows.
#[cfg(not(kani))]
fn sizes_allowed<S: Src>(s: &mut S) -> R {
    use binius_core::constraint_system::{ConstraintSystem, TableSizeSpec};
    let mut specs = Vec::new();
    let mut sizes = Vec::new();
    let mut want = true;
    {
        let size = s.u64() as usize;
        match s.below(3) {
            0 => {
                want &= size != 0 && size & (size - 1) == 0;
                specs.push(TableSizeSpec::PowerOfTwo);
            }
            1 => {
                let log_size = s.below(64);
                want &= size as u128 == 1u128 << log_size;
                specs.push(TableSizeSpec::Fixed { log_size });
            }
            _ => specs.push(TableSizeSpec::Arbitrary),
        }
        sizes.push(size);
    }
    if s.bool() {
        want = false;
        sizes.pop();
    }
    let cs = ConstraintSystem::<binius_field::BinaryField128b> {
        oracles: Default::default(),
        table_constraints: Vec::new(),
        non_zero_oracle_ids: Vec::new(),
        flushes: Vec::new(),
        exponents: Vec::new(),
        channel_count: 0,
        table_size_specs: specs,
    };
    let r = cs.check_table_sizes(&sizes);
    let ok = r.is_ok();
    std::mem::forget(r);
    std::mem::forget(cs);
    ensures!(ok == want, "table sizes are accepted exactly if their specifications allow them");
    Ok(())
}
#[cfg(not(kani))]
pub use native::register;
#[cfg(not(kani))]
mod native {
    use super::*;
    use crate::sys::*;
    use binius_core::constraint_system::validate::validate_witness;
    use binius_core::constraint_system::TableSizeSpec;
    use binius_core::constraint_system::channel::{Boundary, FlushDirection};
    use binius_field::arch::OptimalUnderlier;

    /// The verdict is that of the definition, for satisfying witnesses and after one change.
    fn verdict(s: &mut NSrc) -> R {
        let mut y = Sys::random(s, false);
        let what = s.below(5);
        let live = y.live();
        let ok = match what {
            1 | 2 => y.change_cell(s, &live),
            3 | 4 => y.change_bounds(s),
            _ => true,
        };
        requires!(ok);
        let want = y.constraints_hold() && y.derived_ok() && y.balanced();
        ensures!(want || what > 0, "GENERATOR: a generated system is satisfied");
        let w = y.witness::<OptimalUnderlier>();
        let r = catches(|| validate_witness(&y.cs, &y.bounds, &y.sizes, &w));
        ensures!(r.is_some(), "validation never panics", "{}", y.brief());
        let r = r.unwrap();
        ensures!(r.is_ok() == want, "a witness is accepted exactly if it satisfies the system", "change {} expected {} got {:?} (constraints {} derived {} balanced {}) {}", what, want, r, y.constraints_hold(), y.derived_ok(), y.balanced(), y.brief());
        Ok(())
    }
    /// Statements that are not well formed are refused, never answered with a panic.
    fn refused(s: &mut NSrc) -> R {
        let mut y = Sys::random(s, false);
        let what = s.below(5);
        match what {
            // a boundary or a flush of a channel that does not exist
            0 => {
                let id = y.cs.channel_count + s.below(3);
                y.bounds.push(Boundary { values: vec![f(s.word(1))], channel_id: id, direction: FlushDirection::Push, multiplicity: 1 + s.below(2) as u64 });
                if s.bool() {
                    y.bounds.push(Boundary { values: y.bounds.last().unwrap().values.clone(), direction: FlushDirection::Pull, ..y.bounds.last().unwrap().clone() });
                }
            }
            1 => {
                requires!(!y.cs.flushes.is_empty());
                let k = s.below(y.cs.flushes.len());
                y.cs.flushes[k].channel_id = y.cs.channel_count + s.below(3);
            }
            // fewer channels than are used
            2 => {
                requires!(y.bounds.iter().any(|b| b.channel_id == y.cs.channel_count - 1) || y.cs.flushes.iter().any(|b| b.channel_id == y.cs.channel_count - 1));
                y.cs.channel_count -= 1;
            }
            // a table size its specification forbids
            3 => {
                let t: Vec<usize> = (0..y.sizes.len()).filter(|&t| !matches!(y.cs.table_size_specs[t], TableSizeSpec::Arbitrary)).collect();
                requires!(!t.is_empty());
                let t = t[s.below(t.len())];
                y.cs.table_size_specs[t] = TableSizeSpec::Fixed { log_size: y.sizes[t].trailing_zeros() as usize + 1 + s.below(3) };
            }
            // a column of another length than declared
            _ => {
                let live = y.live();
                requires!(!live.is_empty());
                let c = live[s.below(live.len())];
                if s.bool() {
                    y.cols[c].n += 1;
                    let v = y.cols[c].vals.clone();
                    y.cols[c].vals.extend(v);
                } else {
                    requires!(y.cols[c].n > 0);
                    y.cols[c].n -= 1;
                    let k = y.cols[c].vals.len() / 2;
                    y.cols[c].vals.truncate(k);
                }
            }
        }
        let w = y.witness::<OptimalUnderlier>();
        let r = catches(|| validate_witness(&y.cs, &y.bounds, &y.sizes, &w));
        // columns shorter than a flush needs are refused by an assertion
        ensures!(r.is_some() || what == 4, "validation never panics", "{} {} {}", what, last_panic(), y.brief());
        ensures!(!matches!(r, Some(Ok(()))), "a witness or statement of the wrong shape is refused", "{} {}", what, y.brief());
        Ok(())
    }
    /// Multiplicities are counted exactly up to 2^64 - 1, several of them on one tuple.
    fn multiplicities(s: &mut NSrc) -> R {
        let mut y = Sys::random(s, false);
        let ch = s.below(y.cs.channel_count);
        let v = y.bounds.iter().find(|b| b.channel_id == ch).map(|b| b.values.clone());
        requires!(v.is_some());
        for _ in 0..s.range(1, 5) {
            let m = match s.below(5) {
                0 => u64::MAX,
                1 => 1 << 63,
                2 => (1 << 63) - 1,
                3 => s.below(3) as u64,
                _ => s.u64(),
            };
            let d = if s.bool() { FlushDirection::Push } else { FlushDirection::Pull };
            y.bounds.push(Boundary { values: v.clone().unwrap(), channel_id: ch, direction: d, multiplicity: m });
            if s.bool() {
                let d = if d == FlushDirection::Push { FlushDirection::Pull } else { FlushDirection::Push };
                let k = s.below(3) as u64;
                y.bounds.push(Boundary { values: v.clone().unwrap(), channel_id: ch, direction: d, multiplicity: if k == 2 { m ^ 1 << s.below(64) } else { m } });
            }
        }
        let want = y.balanced();
        let w = y.witness::<OptimalUnderlier>();
        let r = catches(|| validate_witness(&y.cs, &y.bounds, &y.sizes, &w));
        ensures!(r.is_some(), "validation never panics", "{} {}", last_panic(), y.brief());
        ensures!(r.unwrap().is_ok() == want, "channels balance exactly if pushes and pulls have equal counts", "{} {}", want, y.brief());
        Ok(())
    }
    /// What the prover and the verifier make of a system is what its definition says.
    fn verifier(s: &mut NSrc) -> R {
        let mut y = Sys::random(s, true);
        let what = s.below(4);
        let com: Vec<usize> = y.live().into_iter().filter(|&c| matches!(y.cols[c].def, Def::Committed)).collect();
        let ok = match what {
            1 => y.change_cell(s, &com),
            2 | 3 => y.change_bounds(s),
            _ => true,
        };
        requires!(ok);
        y.refresh();
        let want = y.constraints_hold() && y.balanced();
        let p = proof_of(&y.cs, &y.bounds, &y.sizes, y.witness::<OptimalUnderlier>());
        let Some(Ok(p)) = p else {
            ensures!(!want, "the prover proves what is satisfied", "{:?} {} {}", p, last_panic(), y.brief());
            return Err(Stop::Vacuous);
        };
        let r = verified(&y.cs, &y.bounds, &p);
        ensures!(r.is_some(), "the verifier does not panic");
        let r = r.unwrap();
        ensures!(r.is_ok() == want, "the verifier accepts exactly what is satisfied and balanced", "change {} expected {} got {:?} (constraints {} balanced {}) {}", what, want, r, y.constraints_hold(), y.balanced(), y.brief());
        Ok(())
    }
    pub fn register(r: &mut Runner) {
        super::obligations(r);
        r.sampled("verdict", "constraint_system::validate::validate_witness, channel::validate_witness, validate_virtual_oracle_witness, nonzerocheck::validate_witness, zerocheck::validate_witness", 600, verdict);
        r.sampled("table_sizes", "ConstraintSystem::check_table_sizes", 200, super::sizes_allowed);
        r.sampled("refused", "constraint_system::validate::validate_witness, channel::validate_witness, check_table_sizes", 300, refused);
        r.sampled("multiplicities", "channel::validate_witness, Channel::flush", 300, multiplicities);
        r.sampled("verifier", "constraint_system::{prove,verify}, verify_channels_balance, make_flush_oracles, augment_flush_po2_step_down", 60, verifier);
    }
}
