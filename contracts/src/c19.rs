//! C19: gadgets and the table builder.
use crate::rt::*;
use crate::{ensures, obligations, requires};

obligations! {
}
#[cfg(not(kani))]
pub use native::register;
#[cfg(not(kani))]
mod native {
    use super::*;
    use crate::sys::{derive, f, poly, raw, Def, F};
    use binius_compute::alloc::HostBumpAllocator;
    use binius_core::constraint_system::channel::OracleOrConst;
    use binius_core::constraint_system::exp::Exp;
    use binius_core::constraint_system::validate::validate_witness;
    use binius_core::constraint_system::ConstraintSystem as Ccs;
    use binius_core::oracle::{MultilinearOracleSet, MultilinearPolyVariant as V, OracleId, ShiftVariant};
    use binius_core::witness::MultilinearExtensionIndex;
    use binius_field::arch::OptimalUnderlier128b as U;
    use binius_field::as_packed_field::PackedType;
    use binius_field::packed::set_packed_slice;
    use binius_field::*;
    use binius_m3::builder::test_utils::ClosureFiller;
    use binius_m3::builder::{upcast_col, Col, ConstraintSystem, TableBuilder, TableWitnessSegment, WitnessIndex, B1, B128, B32, B64};
    use binius_m3::gadgets::add::*;
    use binius_m3::gadgets::barrel_shifter::BarrelShifter;
    use binius_m3::gadgets::div::*;
    use binius_m3::gadgets::mul::*;
    use binius_m3::gadgets::sub::*;
    use binius_math::CompositionPoly;

    type P = PackedType<U, B128>;
    type Seg<'a> = TableWitnessSegment<'a, P>;
    type Row = [u64; 3];

    /// The columns of a compiled system by oracle, with their definitions.
    struct Cols {
        mos: MultilinearOracleSet<F>,
        vals: Vec<Vec<u128>>,
        exps: Vec<Exp<F>>,
    }
    impl Cols {
        fn by_definition(&self, id: OracleId) -> Option<Vec<u128>> {
            let o = &self.mos[id];
            let n = o.n_vars();
            let d = match &o.variant {
                V::Committed => return None,
                V::Transparent(t) => {
                    return Some((0..1usize << n).map(|i| raw(t.poly().evaluate(&(0..n).map(|j| f((i >> j & 1) as u128)).collect::<Vec<_>>()).unwrap())).collect());
                }
                V::Structured(c) => {
                    return Some((0..1usize << n).map(|i| raw(c.evaluate(&(0..n).map(|j| f((i >> j & 1) as u128)).collect::<Vec<_>>()).unwrap())).collect());
                }
                V::Composite(c) => {
                    return Some((0..1usize << n).map(|i| raw(c.c().evaluate(&c.inner().iter().map(|x| f(self.vals[x.index()][i])).collect::<Vec<F>>()).unwrap())).collect());
                }
                V::Repeating { id, .. } => Def::Rep { inner: id.index() },
                V::Projected(p) => Def::Proj { inner: p.id().index(), start: p.start_index(), at: p.values().iter().map(|&x| raw(x)).collect() },
                V::Shifted(p) => Def::Shift { inner: p.id().index(), off: p.shift_offset(), bits: p.block_size(), kind: p.shift_variant() },
                V::Packed(p) => Def::Pack { inner: p.id().index(), log: p.log_degree() },
                V::LinearCombination(p) => Def::Lin { off: raw(p.offset()), terms: p.polys().zip(p.coefficients()).map(|(i, c)| (i.index(), raw(c))).collect() },
                V::ZeroPadded(p) => Def::Pad { inner: p.id().index(), n: p.n_pad_vars(), index: p.nonzero_index(), start: p.start_index() },
            };
            Some(derive(&d, n, 7, &|x| (self.vals[x].clone(), self.mos.tower_level(OracleId::from_index(x)))))
        }
        fn refresh(&mut self) {
            self.derived();
            for e in self.exps.clone() {
                self.vals[e.exp_result_id.index()] = self.power(&e);
            }
            self.derived();
        }
        fn derived(&mut self) {
            for id in self.mos.ids().collect::<Vec<_>>() {
                if let Some(v) = self.by_definition(id) {
                    self.vals[id.index()] = v;
                }
            }
        }
        /// The committed cells that a cell is computed from.
        fn cells(&self, id: OracleId, i: usize, out: &mut Vec<(OracleId, usize)>) {
            match &self.mos[id].variant {
                V::Committed => out.push((id, i)),
                V::Transparent(_) | V::Structured(_) => {}
                V::Composite(c) => c.inner().iter().for_each(|&x| self.cells(x, i, out)),
                V::Repeating { id, .. } => self.cells(*id, i % self.vals[id.index()].len(), out),
                V::Projected(p) => {
                    let (s, k) = (p.start_index(), p.values().len());
                    for b in 0..1usize << k {
                        if (0..k).all(|j| p.values()[j] != f((b >> j & 1 ^ 1) as u128)) {
                            self.cells(p.id(), i & ((1 << s) - 1) | b << s | i >> s << (s + k), out);
                        }
                    }
                }
                V::Shifted(p) => {
                    let b = 1usize << p.block_size();
                    let (base, o, off) = (i / b * b, i % b, p.shift_offset());
                    match p.shift_variant() {
                        ShiftVariant::CircularLeft => self.cells(p.id(), base + (o + b - off) % b, out),
                        ShiftVariant::LogicalLeft if o >= off => self.cells(p.id(), i - off, out),
                        ShiftVariant::LogicalRight if o + off < b => self.cells(p.id(), i + off, out),
                        _ => {}
                    }
                }
                V::Packed(p) => (0..1usize << p.log_degree()).for_each(|j| self.cells(p.id(), (i << p.log_degree()) + j, out)),
                V::LinearCombination(p) => p.polys().for_each(|x| self.cells(x, i, out)),
                V::ZeroPadded(p) => {
                    let (s, n) = (p.start_index(), p.n_pad_vars());
                    if i >> s & ((1 << n) - 1) == p.nonzero_index() {
                        self.cells(p.id(), i & ((1 << s) - 1) | i >> (s + n) << s, out)
                    }
                }
            }
        }
        fn witness<'a>(&self) -> MultilinearExtensionIndex<'a, P> {
            let mut w = MultilinearExtensionIndex::new();
            for id in self.mos.ids() {
                w.update_multilin_poly([(id, poly::<U>(self.mos.tower_level(id), self.mos.n_vars(id), &self.vals[id.index()]))]).unwrap();
            }
            w
        }
        /// The powers, which the prover computes and proves by a protocol of its own (C11), not by row constraints.
        fn power(&self, e: &Exp<F>) -> Vec<u128> {
            (0..self.vals[e.exp_result_id.index()].len())
                .map(|i| {
                    let mut b = match &e.base {
                        OracleOrConst::Const { base, .. } => *base,
                        OracleOrConst::Oracle(id) => f(self.vals[id.index()][i]),
                    };
                    let mut r = F::ONE;
                    for x in &e.bits_ids {
                        if self.vals[x.index()][i] == 1 {
                            r *= b;
                        }
                        b *= b;
                    }
                    raw(r)
                })
                .collect()
        }
        /// The first place where a constraint does not hold: the oracles it is about and the position.
        fn violated(&self, ccs: &Ccs<F>) -> Option<(Vec<OracleId>, usize)> {
            for cs in &ccs.table_constraints {
                let n = self.vals[cs.oracle_ids[0].index()].len();
                for c in &cs.constraints {
                    for i in 0..n {
                        let x: Vec<F> = cs.oracle_ids.iter().map(|o| f(self.vals[o.index()][i])).collect();
                        if c.composition.evaluate(&x).unwrap() != F::ZERO {
                            let used: Vec<OracleId> = (0..x.len())
                                .filter(|&k| {
                                    let mut y = x.clone();
                                    y[k] += F::ONE;
                                    c.composition.evaluate(&y).unwrap() != c.composition.evaluate(&x).unwrap()
                                })
                                .map(|k| cs.oracle_ids[k])
                                .collect();
                            return Some((used, i));
                        }
                    }
                }
            }
            None
        }
    }

    /// One gadget in a table of its own: honest rows satisfy the system and the rows mean what is meant;
    /// rows that mean something else violate it.  `ins`: how many of the exposed columns are inputs.
    fn gadget<G: Sync>(
        s: &mut NSrc,
        rows: Vec<Row>,
        ins: usize,
        build: impl Fn(&mut TableBuilder) -> (G, Vec<Col<B128>>),
        fill: impl Fn(&G, &[Row], &mut Seg) -> anyhow::Result<()> + Sync,
        meant: impl Fn(&[u128]) -> bool,
        forge: usize,
    ) -> R {
        let mut cs = ConstraintSystem::<B128>::new();
        let ch = cs.add_channel("io");
        let mut table = cs.add_table("t");
        let (g, io) = build(&mut table);
        table.pull(ch, io);
        let id = table.id();
        let mut ccs = cs.compile().map_err(|e| Stop::Violated { obligation: "a table compiles".into(), detail: e.to_string() })?;
        let mut mem = vec![P::zero(); 1 << 13];
        let alloc = HostBumpAllocator::new(&mut mem);
        let mut w = WitnessIndex::<P>::new(&cs, &alloc);
        let r = catches(|| w.fill_table_sequential(&ClosureFiller::new(id, |r: &[Row], seg: &mut Seg| fill(&g, r, seg)), &rows));
        ensures!(matches!(r, Some(Ok(()))), "a gadget fills the witness for every input", "{:x?} {:?} {}", rows, r.map(|x| x.map_err(|e| e.to_string())), last_panic());
        let sizes = w.table_sizes();
        ensures!(sizes == vec![rows.len()], "the size of a table is the number of its events");
        let w = w.into_multilinear_extension_index();
        let io: Vec<OracleId> = ccs.flushes[0].oracles.iter().map(|o| if let OracleOrConst::Oracle(x) = o { *x } else { unreachable!() }).collect();
        ccs.flushes.clear();
        let mos = ccs.oracles.instantiate(&sizes).unwrap();
        let mut vals = vec![];
        for o in mos.ids() {
            if ccs.exponents.iter().any(|e| e.exp_result_id == o) {
                // filled by the prover
                vals.push(vec![0; 1 << mos.n_vars(o)]);
                continue;
            }
            let p = w.get_multilin_poly(o);
            ensures!(p.is_ok(), "every column has a witness");
            let p = p.unwrap();
            ensures!(p.n_vars() == mos.n_vars(o), "columns have the declared length");
            vals.push((0..1 << p.n_vars()).map(|i| raw(p.evaluate_on_hypercube(i).unwrap())).collect::<Vec<u128>>());
        }
        let mut c = Cols { mos, vals, exps: ccs.exponents.clone() };
        for o in c.mos.ids() {
            if let Some(v) = c.by_definition(o) {
                ensures!(v == c.vals[o.index()], "derived columns match their definition", "{} {:x?}", c.mos.label(o), rows);
            }
        }
        let row = |c: &Cols, r: usize| io.iter().map(|o| c.vals[o.index()][r]).collect::<Vec<_>>();
        for r in 0..rows.len() {
            ensures!(meant(&row(&c, r)), "the outputs equal the operation", "{:x?} -> {:x?}", rows[r], row(&c, r));
        }
        c.refresh();
        let ok = validate_witness(&ccs, &[], &sizes, &c.witness());
        ensures!(ok.is_ok(), "the filled witness satisfies all constraints", "{:?} {:x?}", ok, rows);
        // deviations
        let committed: Vec<OracleId> = c.mos.ids().filter(|&o| matches!(c.mos[o].variant, V::Committed) && c.exps.iter().all(|e| e.exp_result_id != o)).collect();
        let mut frozen = vec![];
        for &o in &io[..ins] {
            (0..c.vals[o.index()].len()).for_each(|i| c.cells(o, i, &mut frozen));
        }
        for _ in 0..forge {
            let mut d = Cols { mos: c.mos.clone(), vals: c.vals.clone(), exps: c.exps.clone() };
            let mut fixed = frozen.clone();
            let o = committed[s.below(committed.len())];
            let i = s.below(d.vals[o.index()].len());
            if fixed.contains(&(o, i)) && s.bool() {
                continue;
            }
            d.vals[o.index()][i] ^= 1 << s.below(1 << d.mos.tower_level(o));
            fixed.push((o, i));
            d.refresh();
            // follow the consequences as far as other committed bits allow
            for _ in 0..120 {
                let Some((os, i)) = d.violated(&ccs) else { break };
                let mut cand = vec![];
                os.iter().for_each(|&o| d.cells(o, i, &mut cand));
                cand.retain(|x| !fixed.contains(x) && d.mos.tower_level(x.0) == 0);
                let Some(x) = cand.into_iter().max_by_key(|x| x.0.index()) else { break };
                d.vals[x.0.index()][x.1] ^= 1;
                fixed.push(x);
                d.refresh();
            }
            let wrong = (0..rows.len()).find(|&r| !meant(&row(&d, r)));
            if let Some(r) = wrong {
                let accepted = validate_witness(&ccs, &[], &sizes, &d.witness()).is_ok();
                ensures!(!accepted, "a row whose outputs differ from the operation violates a constraint", "changed {} at {}: rows {:x?}, row {}: {:x?}", d.mos.label(o), i, rows, r, row(&d, r));
            }
        }
        Ok(())
    }
    fn edge(s: &mut NSrc, bits: u32) -> u64 {
        let m = if bits == 64 { u64::MAX } else { (1 << bits) - 1 };
        m & match s.below(7) {
            0 => 0,
            1 => m,
            2 => 1 << s.below(bits as usize),
            3 => (1u64 << s.below(bits as usize)).wrapping_sub(1),
            4 => s.below(10) as u64,
            5 => (m / 2 + 1).wrapping_sub(s.below(2) as u64),
            _ => s.u64(),
        }
    }
    fn rows(s: &mut NSrc, bits: u32) -> Vec<Row> {
        (0..s.range(1, 5)).map(|_| [edge(s, bits), edge(s, bits), s.below(2) as u64]).collect()
    }
    fn bits(v: &[u128]) -> u128 {
        v.iter().enumerate().fold(0, |a, (i, b)| a | b << i)
    }
    fn up<T: TowerField>(c: Col<T>) -> Col<B128>
    where
        B128: ExtensionField<T>,
    {
        upcast_col(c)
    }
    fn ups(c: &[Col<B1>]) -> Vec<Col<B128>> {
        c.iter().map(|&x| up(x)).collect()
    }
    fn pack32(t: &mut TableBuilder, c: Col<B1, 32>) -> Col<B128> {
        up(t.add_packed::<B1, 32, B32, 1>("io", c))
    }
    fn put<const N: usize>(seg: &Seg, c: Col<B1, N>, it: impl Iterator<Item = u32>) -> anyhow::Result<()> {
        let mut d = seg.get_mut_as::<u32, _, N>(c)?;
        it.enumerate().for_each(|(i, x)| d[i] = x);
        Ok(())
    }
    fn put_bits(seg: &Seg, c: &[Col<B1>], it: impl Iterator<Item = u64> + Clone) -> anyhow::Result<()> {
        for (k, &c) in c.iter().enumerate() {
            let mut d = seg.get_mut(c)?;
            it.clone().enumerate().for_each(|(i, x)| set_packed_slice(&mut d, i, B1::from((x >> k & 1) as u8)));
        }
        Ok(())
    }
    fn u32_add(s: &mut NSrc) -> R {
        let r = rows(s, 32);
        let (carry, commit, last) = (s.bool(), s.bool(), s.bool());
        gadget(
            s,
            r,
            2 + carry as usize,
            |t| {
                let (x, y) = (t.add_committed::<B1, 32>("x"), t.add_committed::<B1, 32>("y"));
                let c = carry.then(|| t.add_committed::<B1, 32>("c"));
                let g = U32Add::new(t, x, y, U32AddFlags { carry_in_bit: c, commit_zout: commit, expose_final_carry: last });
                let mut io = vec![pack32(t, x), pack32(t, y)];
                io.extend(c.map(|c| pack32(t, c)));
                io.push(pack32(t, g.zout));
                io.extend(g.final_carry.map(up));
                (g, io)
            },
            |g, r, seg| {
                put(seg, g.xin, r.iter().map(|r| r[0] as u32))?;
                put(seg, g.yin, r.iter().map(|r| r[1] as u32))?;
                if let Some(c) = g.flags.carry_in_bit {
                    put(seg, c, r.iter().map(|r| r[2] as u32))?;
                }
                g.populate(seg)
            },
            |v| {
                let k = 2 + carry as usize;
                // the carry column must be a single bit
                if carry && v[2] > 1 {
                    return true;
                }
                let z = v[0] + v[1] + if carry { v[2] } else { 0 };
                v[k] == z & 0xffff_ffff && (!last || v[k + 1] == z >> 32)
            },
            6,
        )
    }
    fn u32_sub(s: &mut NSrc) -> R {
        let r = rows(s, 32);
        let (carry, commit, last) = (s.bool(), s.bool(), s.bool());
        gadget(
            s,
            r,
            2 + carry as usize,
            |t| {
                let (x, y) = (t.add_committed::<B1, 32>("x"), t.add_committed::<B1, 32>("y"));
                let c = carry.then(|| t.add_committed::<B1, 32>("c"));
                let g = U32Sub::new(t, x, y, U32SubFlags { borrow_in_bit: c, commit_zout: commit, expose_final_borrow: last });
                let mut io = vec![pack32(t, x), pack32(t, y)];
                io.extend(c.map(|c| pack32(t, c)));
                io.push(pack32(t, g.zout));
                io.extend(g.final_borrow.map(up));
                (g, io)
            },
            |g, r, seg| {
                put(seg, g.xin, r.iter().map(|r| r[0] as u32))?;
                put(seg, g.yin, r.iter().map(|r| r[1] as u32))?;
                if let Some(c) = g.flags.borrow_in_bit {
                    put(seg, c, r.iter().map(|r| r[2] as u32))?;
                }
                g.populate(seg)
            },
            |v| {
                let k = 2 + carry as usize;
                if carry && v[2] > 1 {
                    return true;
                }
                let z = v[0] as i128 - v[1] as i128 - if carry { v[2] as i128 } else { 0 };
                v[k] == z as u32 as u128 && (!last || v[k + 1] == (z < 0) as u128)
            },
            6,
        )
    }
    fn stacked(s: &mut NSrc) -> R {
        let r: Vec<Row> = (0..s.range(1, 3)).map(|_| [edge(s, 64), edge(s, 64), s.below(2) as u64]).collect();
        let commit = s.bool();
        gadget(
            s,
            r,
            2,
            |t| {
                let (x, y) = (t.add_committed::<B1, 64>("x"), t.add_committed::<B1, 64>("y"));
                let g = U32AddStacked::<64>::new(t, x, y, commit, None);
                let z = g.zout;
                let mut p = |c| up(t.add_packed::<B1, 64, B64, 1>("io", c));
                let io = vec![p(x), p(y), p(z)];
                (g, io)
            },
            |g, r, seg| {
                put(seg, g.xin, r.iter().flat_map(|r| [r[0] as u32, (r[0] >> 32) as u32]))?;
                put(seg, g.yin, r.iter().flat_map(|r| [r[1] as u32, (r[1] >> 32) as u32]))?;
                g.populate(seg)
            },
            |v| {
                let lo = |x: u128| x as u32;
                let hi = |x: u128| (x >> 32) as u32;
                lo(v[2]) == lo(v[0]).wrapping_add(lo(v[1])) && hi(v[2]) == hi(v[0]).wrapping_add(hi(v[1]))
            },
            6,
        )
    }
    fn wide_add<UX: UnsignedAddPrimitives + Sync, const N: usize>(s: &mut NSrc) -> R {
        let r = rows(s, N as u32);
        let commit = s.bool();
        gadget(
            s,
            r,
            2 * N,
            |t| {
                let (x, y) = (t.add_committed_multiple("x"), t.add_committed_multiple("y"));
                let g = WideAdd::<UX, N>::new(t, x, y, U32AddFlags { commit_zout: commit, expose_final_carry: true, carry_in_bit: None });
                let io = [ups(&x), ups(&y), ups(&g.z_out), ups(&[g.final_carry_out])].concat();
                (g, io)
            },
            |g, r, seg| {
                put_bits(seg, &g.x_in, r.iter().map(|r| r[0]))?;
                put_bits(seg, &g.y_in, r.iter().map(|r| r[1]))?;
                g.populate(seg)
            },
            |v| bits(&v[2 * N..]) == bits(&v[..N]) + bits(&v[N..2 * N]),
            6,
        )
    }
    fn wide_sub<UX: UnsignedAddPrimitives + Sync, const N: usize>(s: &mut NSrc) -> R {
        let r = rows(s, N as u32);
        let (commit, last) = (s.bool(), s.bool());
        gadget(
            s,
            r,
            2 * N,
            |t| {
                let (x, y) = (t.add_committed_multiple("x"), t.add_committed_multiple("y"));
                let g = WideSub::<UX, N>::new(t, x, y, U32SubFlags { commit_zout: commit, expose_final_borrow: last, borrow_in_bit: None });
                let mut io = [ups(&x), ups(&y), ups(&g.zout)].concat();
                io.extend(g.final_borrow.map(up));
                (g, io)
            },
            |g, r, seg| {
                put_bits(seg, &g.xin, r.iter().map(|r| r[0]))?;
                put_bits(seg, &g.yin, r.iter().map(|r| r[1]))?;
                g.populate(seg)
            },
            |v| {
                let (x, y) = (bits(&v[..N]), bits(&v[N..2 * N]));
                bits(&v[2 * N..3 * N]) == x.wrapping_sub(y) & ((1 << N) - 1) && (!last || v[3 * N] == (x < y) as u128)
            },
            6,
        )
    }
    fn incr<UX: UnsignedAddPrimitives + Sync, const N: usize>(s: &mut NSrc) -> R {
        let r = rows(s, N as u32);
        gadget(
            s,
            r,
            N,
            |t| {
                let x = t.add_committed_multiple("x");
                let g = Incr::<UX, N>::new(t, x);
                let io = [ups(&x), ups(&g.zout), ups(&[g.final_carry_out])].concat();
                (g, io)
            },
            |g, r, seg| {
                put_bits(seg, &g.input, r.iter().map(|r| r[0]))?;
                g.populate(seg)
            },
            |v| bits(&v[N..]) == bits(&v[..N]) + 1,
            6,
        )
    }
    fn twos<UX: UnsignedAddPrimitives + Sync, const N: usize>(s: &mut NSrc) -> R {
        let r = rows(s, N as u32);
        gadget(
            s,
            r,
            N,
            |t| {
                let x = t.add_committed_multiple("x");
                let g = TwosComplement::<UX, N>::new(t, x);
                let io = [ups(&x), ups(&g.result_bits)].concat();
                (g, io)
            },
            |g, r, seg| {
                put_bits(seg, &g.xin, r.iter().map(|r| r[0]))?;
                g.populate(seg)
            },
            |v| bits(&v[N..]) == bits(&v[..N]).wrapping_neg() & ((1 << N) - 1),
            6,
        )
    }
    fn shifter(s: &mut NSrc) -> R {
        let mut r = rows(s, 32);
        r.iter_mut().for_each(|r| r[1] &= 0xffff);
        let kind = [ShiftVariant::LogicalLeft, ShiftVariant::LogicalRight, ShiftVariant::CircularLeft][s.below(3)];
        gadget(
            s,
            r,
            2,
            |t| {
                let (x, n) = (t.add_committed::<B1, 32>("x"), t.add_committed::<B1, 16>("n"));
                let g = BarrelShifter::new(t, x, n, kind);
                let io = vec![pack32(t, x), up(t.add_packed::<B1, 16, BinaryField16b, 1>("io", n)), pack32(t, g.output)];
                ((g, x, n), io)
            },
            |(g, x, n), r, seg| {
                put(seg, *x, r.iter().map(|r| r[0] as u32))?;
                {
                    let mut d = seg.get_mut_as::<u16, _, 16>(*n)?;
                    r.iter().enumerate().for_each(|(i, r)| d[i] = r[1] as u16);
                }
                g.populate(seg)
            },
            |v| {
                let (x, n) = (v[0] as u32, v[1] as u32 & 31);
                v[2] as u32
                    == match kind {
                        ShiftVariant::LogicalLeft => x << n,
                        ShiftVariant::LogicalRight => x >> n,
                        ShiftVariant::CircularLeft => x.rotate_left(n),
                    }
            },
            6,
        )
    }
    fn b32(r: &[Row], k: usize) -> Vec<B32> {
        r.iter().map(|r| B32::new(r[k] as u32)).collect()
    }
    fn mul_uu32(s: &mut NSrc) -> R {
        let r = rows(s, 32);
        gadget(
            s,
            r,
            2,
            |t| {
                let g = MulUU32::new(t);
                let io = vec![up(g.xin), up(g.yin), up(g.out_low), up(g.out_high)];
                (g, io)
            },
            |g, r, seg| g.populate_with_inputs(seg, b32(r, 0), b32(r, 1)),
            |v| v[2] | v[3] << 32 == v[0] * v[1],
            4,
        )
    }
    fn mul_uu64(s: &mut NSrc) -> R {
        let r = rows(s, 64);
        gadget(
            s,
            r,
            2,
            |t| {
                let g = MulUU64::new(t);
                let io = vec![up(g.xin), up(g.yin), up(g.out_low), up(g.out_high)];
                (g, io)
            },
            |g, r, seg| g.populate_with_inputs(seg, r.iter().map(|r| B64::new(r[0])).collect::<Vec<_>>(), r.iter().map(|r| B64::new(r[1])).collect::<Vec<_>>()),
            |v| v[2] | v[3] << 64 == v[0].wrapping_mul(v[1]),
            2,
        )
    }
    fn mul_ss32(s: &mut NSrc) -> R {
        let r = rows(s, 32);
        gadget(
            s,
            r,
            2,
            |t| {
                let g = MulSS32::new(t);
                let io = vec![up(g.xin), up(g.yin), up(g.out_low), up(g.out_high)];
                (g, io)
            },
            |g, r, seg| g.populate_with_inputs(seg, b32(r, 0), b32(r, 1)),
            |v| (v[2] | v[3] << 32) as u64 == (v[0] as u32 as i32 as i64 * v[1] as u32 as i32 as i64) as u64,
            3,
        )
    }
    fn mul_su32(s: &mut NSrc) -> R {
        let r = rows(s, 32);
        gadget(
            s,
            r,
            2,
            |t| {
                let g = MulSU32::new(t);
                let io = vec![up(g.xin), up(g.yin), up(g.out_low), up(g.out_high)];
                (g, io)
            },
            |g, r, seg| g.populate_with_inputs(seg, b32(r, 0), b32(r, 1)),
            |v| (v[2] | v[3] << 32) as u64 == (v[0] as u32 as i32 as i64 * v[1] as i64) as u64,
            3,
        )
    }
    fn div_uu32(s: &mut NSrc) -> R {
        let r = rows(s, 32);
        requires!(r.iter().all(|r| r[1] != 0));
        gadget(
            s,
            r,
            2,
            |t| {
                let g = DivUU32::new(t);
                let io = vec![up(g.p_in), up(g.q_in), up(g.out_div), up(g.out_rem)];
                (g, io)
            },
            |g, r, seg| g.populate_with_inputs(seg, b32(r, 0), b32(r, 1)),
            |v| v[1] != 0 && v[2] == v[0] / v[1] && v[3] == v[0] % v[1],
            3,
        )
    }
    fn div_ss32(s: &mut NSrc) -> R {
        let r = rows(s, 32);
        // the quotient of i32::MIN / -1 is no i32
        requires!(r.iter().all(|r| r[1] != 0 && (r[0], r[1]) != (1 << 31, 0xffff_ffff)));
        gadget(
            s,
            r,
            2,
            |t| {
                let g = DivSS32::new(t);
                let io = vec![up(g.p_in), up(g.q_in), up(g.out_div), up(g.out_rem)];
                (g, io)
            },
            |g, r, seg| g.populate_with_inputs(seg, b32(r, 0), b32(r, 1)),
            |v| {
                let (p, q) = (v[0] as u32 as i32, v[1] as u32 as i32);
                q != 0 && v[2] as u32 as i32 == p.wrapping_div(q) && v[3] as u32 as i32 == p.wrapping_rem(q)
            },
            2,
        )
    }
    pub fn register(r: &mut Runner) {
        super::obligations(r);
        let b = "TableBuilder, WitnessIndex::fill_table_sequential, ConstraintSystem::compile, ";
        let c = |x: &str| -> &'static str { Box::leak(format!("{b}{x}").into_boxed_str()) };
        r.sampled("u32_add", c("U32Add"), 60, u32_add);
        r.sampled("u32_sub", c("U32Sub"), 60, u32_sub);
        r.sampled("stacked", c("U32AddStacked"), 40, stacked);
        r.sampled("wide_add32", c("WideAdd<u32>"), 20, wide_add::<u32, 32>);
        r.sampled("wide_add64", c("WideAdd<u64>"), 12, wide_add::<u64, 64>);
        r.sampled("wide_sub32", c("WideSub<u32>"), 20, wide_sub::<u32, 32>);
        r.sampled("wide_sub64", c("WideSub<u64>"), 12, wide_sub::<u64, 64>);
        r.sampled("incr32", c("Incr<u32>"), 20, incr::<u32, 32>);
        r.sampled("twos32", c("TwosComplement<u32>"), 20, twos::<u32, 32>);
        r.sampled("twos64", c("TwosComplement<u64>"), 12, twos::<u64, 64>);
        r.sampled("shifter", c("BarrelShifter"), 12, shifter);
        r.sampled("mul_uu32", c("Mul, MulUU32"), 8, mul_uu32);
        r.sampled("mul_uu64", c("Mul, MulUU64"), 4, mul_uu64);
        r.sampled("mul_ss32", c("MulSS32"), 5, mul_ss32);
        r.sampled("mul_su32", c("MulSU32"), 5, mul_su32);
        r.sampled("div_uu32", c("DivUU32"), 8, div_uu32);
        r.sampled("div_ss32", c("DivSS32, SignConverter"), 8, div_ss32);
    }
}
