//! Generated constraint systems with witnesses, and an independent reading of what they mean.
use crate::rt::*;
use binius_core::constraint_system::channel::{Boundary, Flush, FlushDirection, OracleOrConst};
use binius_core::constraint_system::{ConstraintSystem, TableSizeSpec};
use binius_core::oracle::*;
use binius_core::transparent::{constant::Constant, step_down::StepDown};
use binius_core::witness::{MultilinearExtensionIndex, MultilinearWitness};
use binius_field::as_packed_field::{PackScalar, PackedType};
use binius_field::underlier::UnderlierType;
use binius_field::*;
use binius_math::{ArithCircuit, MultilinearExtension};
use std::collections::BTreeMap;

pub type F = BinaryField128b;
pub fn f(x: u128) -> F {
    F::from(x)
}
pub fn raw(x: F) -> u128 {
    x.into()
}

/// A sum of products of variables with coefficients.
#[derive(Clone, Debug)]
pub struct Poly(pub Vec<(u128, Vec<usize>)>);
impl Poly {
    pub fn at(&self, x: &[u128]) -> u128 {
        let mut r = F::ZERO;
        for (c, t) in &self.0 {
            r += t.iter().fold(f(*c), |p, &i| p * f(x[i]));
        }
        raw(r)
    }
    pub fn circuit(&self) -> ArithCircuit<F> {
        let mut r = ArithCircuit::zero();
        for (c, t) in &self.0 {
            let mut p = ArithCircuit::constant(f(*c));
            for &i in t {
                p = p * ArithCircuit::var(i);
            }
            r = r + p;
        }
        r
    }
}

#[derive(Clone, Debug)]
pub enum Def {
    Committed,
    Shift { inner: usize, off: usize, bits: usize, kind: ShiftVariant },
    Lin { off: u128, terms: Vec<(usize, u128)> },
    Rep { inner: usize },
    Proj { inner: usize, start: usize, at: Vec<u128> },
    Pack { inner: usize, log: usize },
    Pad { inner: usize, n: usize, index: usize, start: usize },
    Comp { inner: Vec<usize>, p: Poly },
    Const(u128),
    Down(usize),
    /// affine in the bits of the row index
    Struct { off: u128, bits: Vec<u128> },
}
#[derive(Clone, Debug)]
pub struct Col {
    pub id: OracleId,
    pub table: usize,
    pub lvpr: usize,
    pub level: usize,
    pub n: usize,
    pub def: Def,
    pub vals: Vec<u128>,
}
#[derive(Clone, Debug)]
pub struct Zero {
    pub cols: Vec<usize>,
    pub p: Poly,
}
pub struct Sys {
    pub cs: ConstraintSystem<F>,
    pub sizes: Vec<usize>,
    pub cols: Vec<Col>,
    pub zeros: Vec<Zero>,
    pub nonzero: Vec<usize>,
    pub bounds: Vec<Boundary<F>>,
}

fn log_ceil(x: usize) -> usize {
    let mut k = 0;
    while 1 << k < x {
        k += 1;
    }
    k
}
pub fn word(s: &mut NSrc, level: usize) -> u128 {
    match s.below(4) {
        0 => s.word(1),
        _ => s.word(1 << level),
    }
}
/// The values a derived column has by definition.
pub fn derive(d: &Def, n: usize, level: usize, v: &dyn Fn(usize) -> (Vec<u128>, usize)) -> Vec<u128> {
    (0..1usize << n)
        .map(|i| match d {
            Def::Committed => unreachable!(),
            Def::Shift { inner, off, bits, kind } => {
                let (x, _) = v(*inner);
                let b = 1 << bits;
                let (base, o) = (i / b * b, i % b);
                match kind {
                    ShiftVariant::CircularLeft => x[base + (o + b - off) % b],
                    ShiftVariant::LogicalLeft => if o < *off { 0 } else { x[base + o - off] },
                    ShiftVariant::LogicalRight => if o + off < b { x[base + o + off] } else { 0 },
                }
            }
            Def::Lin { off, terms } => raw(terms.iter().fold(f(*off), |a, (c, k)| a + f(v(*c).0[i]) * f(*k))),
            Def::Rep { inner } => {
                let (x, _) = v(*inner);
                x[i % x.len()]
            }
            Def::Proj { inner, start, at } => {
                let (x, _) = v(*inner);
                let (lo, hi) = (i & ((1 << start) - 1), i >> start);
                let mut r = F::ZERO;
                for b in 0..1 << at.len() {
                    let mut w = F::ONE;
                    for (j, a) in at.iter().enumerate() {
                        w *= if b >> j & 1 == 1 { f(*a) } else { F::ONE + f(*a) };
                    }
                    r += w * f(x[lo | b << start | hi << (start + at.len())]);
                }
                raw(r)
            }
            Def::Pack { inner, log } => {
                let (x, l) = v(*inner);
                (0..1 << log).fold(0, |a, j| a | x[(i << log) + j] << (j << l))
            }
            Def::Pad { inner, n, index, start } => {
                let (x, _) = v(*inner);
                let (lo, mid, hi) = (i & ((1 << start) - 1), i >> start & ((1 << n) - 1), i >> (start + n));
                if mid == *index { x[lo | hi << start] } else { 0 }
            }
            Def::Comp { inner, p } => p.at(&inner.iter().map(|&c| v(c).0[i]).collect::<Vec<_>>()),
            Def::Const(c) => *c,
            Def::Down(k) => (i < *k) as u128,
            Def::Struct { off, bits } => bits.iter().enumerate().fold(*off, |a, (j, b)| if i >> j & 1 == 1 { a ^ b } else { a }),
        })
        .map(|x| {
            debug_assert!(level == 7 || x >> (1 << level) == 0);
            x
        })
        .collect()
}

/// The values of a derived oracle on the hypercube, from its definition.
pub fn by_definition(mos: &MultilinearOracleSet<F>, id: OracleId, v: &mut dyn FnMut(OracleId) -> Vec<u128>) -> Option<Vec<u128>> {
    use binius_core::oracle::MultilinearPolyVariant as O;
    let o = &mos[id];
    let n = o.n_vars();
    let at = |i: usize, k: usize| (0..k).map(|j| f((i >> j & 1) as u128)).collect::<Vec<_>>();
    let mut inner = vec![];
    let d = match &o.variant {
        O::Committed => return None,
        O::Transparent(t) => return Some((0..1usize << n).map(|i| raw(t.poly().evaluate(&at(i, n)).unwrap())).collect()),
        O::Structured(c) => return Some((0..1usize << n).map(|i| raw(c.evaluate(&at(i, c.n_vars())).unwrap())).collect()),
        O::Composite(c) => {
            let x: Vec<Vec<u128>> = c.inner().iter().map(|&x| v(x)).collect();
            return Some((0..1usize << n).map(|i| raw(binius_math::CompositionPoly::evaluate(c.c(), &x.iter().map(|x| f(x[i])).collect::<Vec<F>>()).unwrap())).collect());
        }
        O::Repeating { id, .. } => {
            inner.push(*id);
            Def::Rep { inner: 0 }
        }
        O::Projected(p) => {
            inner.push(p.id());
            Def::Proj { inner: 0, start: p.start_index(), at: p.values().iter().map(|&x| raw(x)).collect() }
        }
        O::Shifted(p) => {
            inner.push(p.id());
            Def::Shift { inner: 0, off: p.shift_offset(), bits: p.block_size(), kind: p.shift_variant() }
        }
        O::Packed(p) => {
            inner.push(p.id());
            Def::Pack { inner: 0, log: p.log_degree() }
        }
        O::LinearCombination(p) => {
            inner.extend(p.polys());
            Def::Lin { off: raw(p.offset()), terms: p.coefficients().enumerate().map(|(i, c)| (i, raw(c))).collect() }
        }
        O::ZeroPadded(p) => {
            inner.push(p.id());
            Def::Pad { inner: 0, n: p.n_pad_vars(), index: p.nonzero_index(), start: p.start_index() }
        }
    };
    let vals: Vec<_> = inner.iter().map(|&x| (v(x), mos.tower_level(x))).collect();
    Some(derive(&d, n, 7, &|x| vals[x].clone()))
}

/// Does the column's definition reach a composite column?
pub fn on_comp(cols: &[Col], c: usize) -> bool {
    match &cols[c].def {
        Def::Comp { .. } => true,
        Def::Shift { inner, .. } | Def::Rep { inner } | Def::Proj { inner, .. } | Def::Pack { inner, .. } | Def::Pad { inner, .. } => on_comp(cols, *inner),
        Def::Lin { terms, .. } => terms.iter().any(|t| on_comp(cols, t.0)),
        _ => false,
    }
}

impl Sys {
    /// A random system with a satisfying witness and balanced channels.  `provable`: committed columns
    /// fill whole 128-bit words, as the prover requires.
    pub fn random(s: &mut NSrc, provable: bool) -> Sys {
        let nt = s.range(1, 3);
        let mut specs = vec![];
        let mut sizes = vec![];
        for t in 0..nt {
            let size = match s.below(8) {
                0 if t > 0 => 0,
                1 => 1,
                _ => s.range(1, 6),
            };
            specs.push(match s.below(4) {
                0 if size.is_power_of_two() => TableSizeSpec::PowerOfTwo,
                1 if size.is_power_of_two() => TableSizeSpec::Fixed { log_size: log_ceil(size) },
                _ => TableSizeSpec::Arbitrary,
            });
            sizes.push(size);
        }
        let mut o = SymbolicMultilinearOracleSet::<F>::new();
        let mut cols: Vec<Col> = vec![];
        let mut zeros: Vec<Zero> = vec![];
        for t in 0..nt {
            let lc = log_ceil(sizes[t]);
            let first = cols.len();
            let want = s.range(3, 9);
            while cols.len() - first < want {
                let k = cols.len() - first;
                let pick = |s: &mut NSrc| first + s.below(k);
                let mut lvpr = s.below(4);
                let mut def = Def::Committed;
                let mut level = [0, 3, 5, 7][s.below(4)];
                let kind = if k < 2 { 0 } else { s.below(14) };
                let same = |c: usize, cols: &[Col]| (first..cols.len()).filter(|&x| cols[x].lvpr == cols[c].lvpr).collect::<Vec<_>>();
                let mut forced = None;
                match kind {
                    2 => {
                        let c = pick(s);
                        if cols[c].n > 0 {
                            let bits = s.range(1, cols[c].n);
                            (lvpr, level) = (cols[c].lvpr, cols[c].level);
                            let kind = [ShiftVariant::CircularLeft, ShiftVariant::LogicalLeft, ShiftVariant::LogicalRight][s.below(3)];
                            def = Def::Shift { inner: c, off: s.range(1, (1 << bits) - 1), bits, kind };
                        }
                    }
                    3 => {
                        let c = pick(s);
                        let cs = same(c, &cols);
                        lvpr = cols[c].lvpr;
                        let terms: Vec<(usize, u128)> = (0..s.range(1, 3))
                            .map(|_| {
                                let x = cs[s.below(cs.len())];
                                (x, if s.bool() { 1 } else { word(s, cols[x].level) })
                            })
                            .collect();
                        // the level the builder declares is the maximum over terms and coefficients
                        level = terms.iter().map(|t| cols[t.0].level).max().unwrap();
                        let off = if s.bool() { 0 } else { word(s, level) };
                        def = Def::Lin { off, terms };
                    }
                    4 => {
                        let c = pick(s);
                        (lvpr, level) = (cols[c].lvpr + s.below(3), cols[c].level);
                        def = Def::Rep { inner: c };
                    }
                    5 | 6 => {
                        let c = pick(s);
                        let m = s.range(0, cols[c].lvpr);
                        let start = s.range(0, cols[c].lvpr - m);
                        (lvpr, level) = (cols[c].lvpr - m, cols[c].level);
                        // known finding: an honest proof about a composite column at a point with a coordinate 1
                        // is rejected, so proofs are only asked for projections of those at 0
                        let ones = !(provable && on_comp(&cols, c));
                        let at = (0..m).map(|_| if level == 7 && s.bool() { s.word(128) | 2 } else { s.word(1) & ones as u128 }).collect();
                        if m > 0 {
                            def = Def::Proj { inner: c, start: if kind == 6 { lc + cols[c].lvpr - m } else { start }, at };
                        } else {
                            def = Def::Rep { inner: c };
                        }
                    }
                    7 => {
                        let c = pick(s);
                        let log = s.range(0, cols[c].lvpr.min(7 - cols[c].level));
                        if log > 0 {
                            (lvpr, level) = (cols[c].lvpr - log, cols[c].level + log);
                            if [0, 3, 4, 5, 6, 7].contains(&level) {
                                def = Def::Pack { inner: c, log };
                            }
                        }
                        if matches!(def, Def::Committed) {
                            (lvpr, level) = (0, 7);
                        }
                    }
                    8 => {
                        let c = pick(s);
                        let m = s.range(1, 2);
                        (lvpr, level) = (cols[c].lvpr + m, cols[c].level);
                        def = Def::Pad { inner: c, n: m, index: s.below(1 << m), start: s.range(0, cols[c].n) };
                    }
                    9 | 10 | 1 => {
                        let c = pick(s);
                        let cs = same(c, &cols);
                        lvpr = cols[c].lvpr;
                        let mut inner: Vec<usize> = (0..s.range(1, 3)).map(|_| cs[s.below(cs.len())]).collect();
                        inner.sort();
                        inner.dedup();
                        inner.reverse();
                        let m = inner.len();
                        let mut ts = vec![(1u128, vec![m - 1])];
                        for _ in 0..s.range(1, 2) {
                            let mut t: Vec<usize> = (0..s.range(1, 2)).map(|_| s.below(m)).collect();
                            t.sort();
                            // equal terms would cancel (compositions of degree 0 are excluded)
                            if ts.iter().all(|x| x.1 != t) {
                                ts.push((1, t));
                            }
                        }
                        if s.bool() {
                            ts.push((1, vec![]));
                        }
                        let p = Poly(ts);
                        level = inner.iter().map(|&x| cols[x].level).max().unwrap();
                        if kind == 1 {
                            // a committed column constrained to be this polynomial
                            level = 7;
                            forced = Some((inner, p));
                        } else {
                            def = Def::Comp { inner, p };
                        }
                    }
                    11 => {
                        def = Def::Const(word(s, level));
                    }
                    12 => {
                        level = 0;
                        def = Def::Down(s.range(1, 1 << (lc + lvpr)));
                    }
                    13 => {
                        level = 7;
                        let n = lc + lvpr;
                        if n > 0 && sizes[t] > 0 {
                            let mut bits: Vec<u128> = (0..n).map(|_| word(s, 7)).collect();
                            bits[n - 1] |= 2;
                            def = Def::Struct { off: word(s, 7), bits };
                        }
                    }
                    _ => {}
                }
                if matches!(def, Def::Committed) && provable && forced.is_none() {
                    lvpr = lvpr.max(7 - level);
                }
                let n = lc + lvpr;
                // keep the tables small
                if n > 10 {
                    continue;
                }
                let name = format!("c{}", cols.len());
                let b = o.add_oracle(t, lvpr, name);
                let oid = |c: usize| cols[c].id;
                let id = match &def {
                    Def::Committed => b.committed(level),
                    Def::Shift { inner, off, bits, kind } => b.shifted(oid(*inner), *off, *bits, *kind).unwrap(),
                    Def::Lin { off, terms } => {
                        let ts: Vec<_> = terms.iter().map(|t| (oid(t.0), f(t.1))).collect();
                        if *off == 0 { b.linear_combination(ts).unwrap() } else { b.linear_combination_with_offset(f(*off), ts).unwrap() }
                    }
                    Def::Rep { inner } => b.repeating(oid(*inner)).unwrap(),
                    Def::Proj { inner, start, at } => {
                        let v = at.iter().map(|&x| f(x)).collect();
                        if kind == 6 { b.projected_last_vars(oid(*inner), v).unwrap() } else { b.projected(oid(*inner), v, *start).unwrap() }
                    }
                    Def::Pack { inner, log } => b.packed(oid(*inner), *log).unwrap(),
                    Def::Pad { inner, n, index, start } => b.zero_padded(oid(*inner), *n, *index, *start).unwrap(),
                    Def::Comp { inner, p } => b.composite_mle(inner.iter().map(|&c| oid(c)), p.circuit()).unwrap(),
                    Def::Const(c) => match level {
                        0 => b.transparent(Constant::new(n, BinaryField1b::try_from(f(*c)).unwrap())).unwrap(),
                        3 => b.transparent(Constant::new(n, BinaryField8b::try_from(f(*c)).unwrap())).unwrap(),
                        5 => b.transparent(Constant::new(n, BinaryField32b::try_from(f(*c)).unwrap())).unwrap(),
                        _ => b.transparent(Constant::new(n, f(*c))).unwrap(),
                    },
                    Def::Down(k) => b.transparent(StepDown::new(n, *k).unwrap()).unwrap(),
                    Def::Struct { off, bits } => b
                        .structured(Poly(std::iter::once((*off, vec![])).chain(bits.iter().enumerate().map(|(j, b)| (*b, vec![j]))).collect()).circuit())
                        .unwrap(),
                };
                let at = |c: usize| (cols[c].vals.clone(), cols[c].level);
                let vals = if sizes[t] == 0 {
                    vec![]
                } else if let Some((inner, p)) = &forced {
                    (0..1usize << n).map(|i| p.at(&inner.iter().map(|&c| cols[c].vals[i]).collect::<Vec<_>>())).collect()
                } else if matches!(def, Def::Committed) {
                    (0..1usize << n).map(|_| word(s, level)).collect()
                } else {
                    derive(&def, n, level, &at)
                };
                if let Some((inner, p)) = forced {
                    let mut cs = inner;
                    let mut p = p;
                    p.0.push((1, vec![cs.len()]));
                    cs.push(cols.len());
                    zeros.push(Zero { cols: cs, p });
                }
                cols.push(Col { id, table: t, lvpr, level, n, def, vals });
            }
        }
        // constraint sets: either one per constraint, or one per (table, lvpr) with shared oracles
        let mut table_constraints: Vec<ConstraintSet<F>> = vec![];
        let merge = s.bool();
        for (i, z) in zeros.iter().enumerate() {
            let (t, l) = (cols[z.cols[0]].table, cols[z.cols[0]].lvpr);
            let pos = table_constraints.iter().position(|c| merge && c.table_id == t && c.log_values_per_row == l);
            let at = pos.unwrap_or_else(|| {
                table_constraints.push(ConstraintSet { table_id: t, log_values_per_row: l, oracle_ids: vec![], constraints: vec![] });
                table_constraints.len() - 1
            });
            let c = &mut table_constraints[at];
            let map: Vec<usize> = z
                .cols
                .iter()
                .map(|&x| {
                    let id = cols[x].id;
                    c.oracle_ids.iter().position(|&y| y == id).unwrap_or_else(|| {
                        c.oracle_ids.push(id);
                        c.oracle_ids.len() - 1
                    })
                })
                .collect();
            let p = Poly(z.p.0.iter().map(|(k, t)| (*k, t.iter().map(|&v| map[v]).collect())).collect());
            c.constraints.push(Constraint { name: format!("z{i}"), composition: p.circuit(), predicate: ConstraintPredicate::Zero });
        }
        let mut nonzero = vec![];
        for (i, c) in cols.iter().enumerate() {
            if c.vals.iter().all(|&x| x != 0) && s.below(3) == 0 {
                nonzero.push(i);
            }
        }
        let channels = s.range(1, 3);
        let widths: Vec<usize> = (0..channels).map(|_| s.range(1, 3)).collect();
        let mut flushes: Vec<Flush<F>> = vec![];
        for _ in 0..s.below(5) {
            let c = s.below(cols.len());
            let cs: Vec<usize> = (0..cols.len()).filter(|&x| cols[x].table == cols[c].table && cols[x].lvpr == cols[c].lvpr).collect();
            let bits: Vec<usize> = cs.iter().copied().filter(|&x| cols[x].level == 0).collect();
            let ch = s.below(channels);
            let keep = s.below(widths[ch]);
            let oracles = (0..widths[ch])
                .map(|k| {
                    if k != keep && s.below(3) == 0 {
                        OracleOrConst::Const { base: f(word(s, 3)), tower_level: 3 }
                    } else {
                        OracleOrConst::Oracle(cols[cs[s.below(cs.len())]].id)
                    }
                })
                .collect();
            let selectors = if bits.is_empty() { vec![] } else { (0..s.below(3)).map(|_| cols[bits[s.below(bits.len())]].id).collect() };
            flushes.push(Flush {
                table_id: cols[c].table,
                log_values_per_row: cols[c].lvpr,
                oracles,
                channel_id: ch,
                direction: if s.bool() { FlushDirection::Push } else { FlushDirection::Pull },
                selectors,
                multiplicity: [1, 1, 2, 3, 1 << 40][s.below(5)],
            });
        }
        let cs = ConstraintSystem {
            oracles: o,
            table_constraints,
            non_zero_oracle_ids: nonzero.iter().map(|&c| cols[c].id).collect(),
            flushes,
            exponents: vec![],
            channel_count: channels,
            table_size_specs: specs,
        };
        let mut sys = Sys { cs, sizes, cols, zeros, nonzero, bounds: vec![] };
        for _ in 0..s.below(3) {
            let ch = s.below(channels);
            let values = (0..widths[ch]).map(|_| f(word(s, 3))).collect();
            sys.bounds.push(Boundary { values, channel_id: ch, direction: if s.bool() { FlushDirection::Push } else { FlushDirection::Pull }, multiplicity: s.range(1, 3) as u64 });
        }
        // boundaries that balance every channel
        for ((ch, v), m) in sys.counts().0 {
            if m != 0 {
                sys.bounds.push(Boundary {
                    values: v.iter().map(|&x| f(x)).collect(),
                    channel_id: ch,
                    direction: if m > 0 { FlushDirection::Pull } else { FlushDirection::Push },
                    multiplicity: m.unsigned_abs() as u64,
                });
            }
        }
        sys
    }
    /// How often each tuple is pushed minus pulled, per channel; and whether the widths agree.
    pub fn counts(&self) -> (BTreeMap<(usize, Vec<u128>), i128>, bool) {
        let mut m = BTreeMap::new();
        let mut w: BTreeMap<usize, usize> = BTreeMap::new();
        let mut ok = true;
        let sign = |d: FlushDirection| if d == FlushDirection::Push { 1 } else { -1 };
        for b in &self.bounds {
            ok &= *w.entry(b.channel_id).or_insert(b.values.len()) == b.values.len();
            *m.entry((b.channel_id, b.values.iter().map(|&x| raw(x)).collect::<Vec<_>>())).or_insert(0) += b.multiplicity as i128 * sign(b.direction);
        }
        for fl in &self.cs.flushes {
            let col = |id: OracleId| &self.cols.iter().find(|c| c.id == id).unwrap().vals;
            for i in 0..self.sizes[fl.table_id] << fl.log_values_per_row {
                if fl.selectors.iter().any(|&x| col(x)[i] == 0) {
                    continue;
                }
                ok &= *w.entry(fl.channel_id).or_insert(fl.oracles.len()) == fl.oracles.len();
                let v: Vec<u128> = fl
                    .oracles
                    .iter()
                    .map(|x| match x {
                        OracleOrConst::Oracle(id) => col(*id)[i],
                        OracleOrConst::Const { base, .. } => raw(*base),
                    })
                    .collect();
                *m.entry((fl.channel_id, v)).or_insert(0) += fl.multiplicity as i128 * sign(fl.direction);
            }
        }
        (m, ok)
    }
    pub fn balanced(&self) -> bool {
        let (m, ok) = self.counts();
        ok && m.values().all(|&x| x == 0)
    }
    /// Every constraint on every row, and no zero in the columns declared non-zero.
    pub fn constraints_hold(&self) -> bool {
        self.zeros.iter().all(|z| {
            let t = self.cols[z.cols[0]].table;
            self.sizes[t] == 0 || (0..self.cols[z.cols[0]].vals.len()).all(|i| z.p.at(&z.cols.iter().map(|&c| self.cols[c].vals[i]).collect::<Vec<_>>()) == 0)
        }) && self.nonzero.iter().all(|&c| self.cols[c].vals.iter().all(|&x| x != 0))
    }
    /// Every derived column matches its definition.
    pub fn derived_ok(&self) -> bool {
        self.cols.iter().all(|c| {
            self.sizes[c.table] == 0 || matches!(c.def, Def::Committed) || derive(&c.def, c.n, 7, &|x| (self.cols[x].vals.clone(), self.cols[x].level)) == c.vals
        })
    }
    /// Recompute the derived columns.
    pub fn refresh(&mut self) {
        for i in 0..self.cols.len() {
            let c = &self.cols[i];
            if self.sizes[c.table] > 0 && !matches!(c.def, Def::Committed) {
                let v = derive(&c.def, c.n, 7, &|x| (self.cols[x].vals.clone(), self.cols[x].level));
                self.cols[i].vals = v;
            }
        }
    }
    pub fn brief(&self) -> String {
        let mut r = format!("sizes {:?} {:?}", self.sizes, self.cs.table_size_specs);
        for (i, c) in self.cols.iter().enumerate() {
            r += &format!("; c{} t{} lvpr {} level {} {:x?}", i, c.table, c.lvpr, c.level, c.def);
        }
        for z in &self.zeros {
            r += &format!("; zero {:?}", z);
        }
        r += &format!("; nonzero {:?}", self.nonzero);
        for x in &self.cs.flushes {
            let v: Vec<String> = x.oracles.iter().map(|o| match o { OracleOrConst::Oracle(i) => format!("c{}", i.index()), OracleOrConst::Const { base, .. } => format!("{:x}", raw(*base)) }).collect();
            r += &format!("; flush ch{} {:?} {:?} x{} lvpr {} sel {:?}", x.channel_id, x.direction, v, x.multiplicity, x.log_values_per_row, x.selectors.iter().map(|i| i.index()).collect::<Vec<_>>());
        }
        for b in &self.bounds {
            r += &format!("; bound ch{} {:?} {:x?} x{}", b.channel_id, b.direction, b.values.iter().map(|&v| raw(v)).collect::<Vec<_>>(), b.multiplicity);
        }
        r
    }
    pub fn live(&self) -> Vec<usize> {
        (0..self.cols.len()).filter(|&c| self.sizes[self.cols[c].table] > 0).collect()
    }
    /// Change one value of one of the columns.
    pub fn change_cell(&mut self, s: &mut NSrc, among: &[usize]) -> bool {
        if among.is_empty() {
            return false;
        }
        let c = among[s.below(among.len())];
        let level = self.cols[c].level;
        let i = s.below(self.cols[c].vals.len());
        let d = if s.bool() { 1u128 << s.below(1 << level) } else { s.word(1 << level) };
        self.cols[c].vals[i] ^= d;
        true
    }
    pub fn change_bounds(&mut self, s: &mut NSrc) -> bool {
        let nb = self.bounds.len();
        let ch = self.cs.channel_count;
        match s.below(7) {
            0 => {
                let w = s.range(1, 3);
                let values = (0..w).map(|_| f(word(s, 3))).collect();
                self.bounds.push(Boundary { values, channel_id: s.below(ch), direction: if s.bool() { FlushDirection::Push } else { FlushDirection::Pull }, multiplicity: s.range(1, 3) as u64 });
                return true;
            }
            _ if nb == 0 => return false,
            1 => {
                self.bounds.remove(s.below(nb));
            }
            2 => {
                let b = &mut self.bounds[s.below(nb)];
                b.multiplicity = b.multiplicity.wrapping_add(if s.bool() { 1 } else { 2 });
            }
            3 => {
                let b = &mut self.bounds[s.below(nb)];
                let k = s.below(b.values.len());
                b.values[k] += f(1 << s.below(128));
            }
            4 => {
                let b = &mut self.bounds[s.below(nb)];
                b.direction = if b.direction == FlushDirection::Push { FlushDirection::Pull } else { FlushDirection::Push };
            }
            5 => {
                let b = &mut self.bounds[s.below(nb)];
                b.channel_id = s.below(ch);
            }
            _ => {
                let b = &mut self.bounds[s.below(nb)];
                b.values.push(f(s.word(1)));
            }
        }
        true
    }
    pub fn witness<'a, U>(&self) -> MultilinearExtensionIndex<'a, PackedType<U, F>>
    where
        U: UnderlierType + PackScalar<BinaryField1b> + PackScalar<BinaryField8b> + PackScalar<BinaryField16b> + PackScalar<BinaryField32b> + PackScalar<BinaryField64b> + PackScalar<F>,
    {
        let mut w = MultilinearExtensionIndex::new();
        for c in self.cols.iter().filter(|c| self.sizes[c.table] > 0) {
            w.update_multilin_poly([(c.id, poly::<U>(c.level, c.n, &c.vals))]).unwrap();
        }
        w
    }
}
pub fn poly<'a, U>(level: usize, n: usize, vals: &[u128]) -> MultilinearWitness<'a, PackedType<U, F>>
where
    U: UnderlierType + PackScalar<BinaryField1b> + PackScalar<BinaryField8b> + PackScalar<BinaryField16b> + PackScalar<BinaryField32b> + PackScalar<BinaryField64b> + PackScalar<F>,
{
    macro_rules! mk {
        ($t:ty) => {{
            let mut v = <PackedType<U, $t>>::zero();
            let w = <PackedType<U, $t> as PackedField>::WIDTH;
            let mut out = vec![v; (vals.len() / w).max(1)];
            for (i, &x) in vals.iter().enumerate() {
                v = out[i / w];
                v.set(i % w, <$t>::try_from(f(x)).unwrap_or_else(|_| panic!("value outside of the column's field")));
                out[i / w] = v;
            }
            MultilinearExtension::new(n, out).unwrap().specialize_arc_dyn::<PackedType<U, F>>()
        }};
    }
    match level {
        0 => mk!(BinaryField1b),
        3 => mk!(BinaryField8b),
        4 => mk!(BinaryField16b),
        5 => mk!(BinaryField32b),
        6 => mk!(BinaryField64b),
        _ => mk!(F),
    }
}

use binius_compute::ComputeHolder;
use binius_core::constraint_system::{Proof, prove, verify};
use binius_core::fiat_shamir::HasherChallenger;
use binius_fast_compute::layer::FastCpuLayerHolder;
use binius_field::arch::OptimalUnderlier;
use binius_field::tower::CanonicalTowerFamily;
use binius_hash::groestl::{Groestl256, Groestl256ByteCompression};

pub const RATE: usize = 1;
pub const BITS: usize = 40;
/// An end-to-end proof; `None` if the prover panics.
pub fn proof_of(cs: &ConstraintSystem<F>, bounds: &[Boundary<F>], sizes: &[usize], w: MultilinearExtensionIndex<PackedType<OptimalUnderlier, F>>) -> Option<Result<Vec<u8>, String>> {
    proof_as(cs, cs, bounds, sizes, w)
}
/// A proof of `cs` made under the digest of `named`.
pub fn proof_as(cs: &ConstraintSystem<F>, named: &ConstraintSystem<F>, bounds: &[Boundary<F>], sizes: &[usize], w: MultilinearExtensionIndex<PackedType<OptimalUnderlier, F>>) -> Option<Result<Vec<u8>, String>> {
    catches(|| {
        let mut h = FastCpuLayerHolder::<CanonicalTowerFamily, PackedType<OptimalUnderlier, F>>::new(1 << 12, 1 << 18);
        let digest = named.digest::<Groestl256>();
        prove::<_, OptimalUnderlier, CanonicalTowerFamily, Groestl256, Groestl256ByteCompression, HasherChallenger<Groestl256>, _, _, _>(
            &mut h.to_data(),
            cs,
            RATE,
            BITS,
            &digest,
            bounds,
            sizes,
            w,
            &binius_hal::make_portable_backend(),
        )
        .map(|p| p.transcript)
        .map_err(|e| e.to_string())
    })
}
/// `None` if the verifier panics.
pub fn verified(cs: &ConstraintSystem<F>, bounds: &[Boundary<F>], proof: &[u8]) -> Option<Result<(), String>> {
    catches(|| {
        let digest = cs.digest::<Groestl256>();
        verify::<OptimalUnderlier, CanonicalTowerFamily, Groestl256, Groestl256ByteCompression, HasherChallenger<Groestl256>>(
            cs,
            RATE,
            BITS,
            &digest,
            bounds,
            Proof { transcript: proof.to_vec() },
        )
        .map_err(|e| e.to_string())
    })
}
