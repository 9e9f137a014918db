//! C03: lane access and data movement.
use crate::rt::*;
use crate::spec::*;
use binius_field::byte_iteration::*;
use binius_field::packed::*;
use binius_field::underlier::*;
use binius_field::*;

#[cfg(not(kani))]
pub use nat::*;
#[cfg(not(kani))]
mod nat {
    use super::*;
    use binius_utils::random_access_sequence::{RandomAccessSequence, RandomAccessSequenceMut};

    pub fn same(name: &str, got: &[u128], want: &[u128]) -> R {
        if got == want {
            return Ok(());
        }
        let i = (0..want.len().min(got.len())).find(|&i| got[i] != want[i]);
        Err(Stop::Violated {
            obligation: name.into(),
            detail: match i {
                Some(i) => format!("element {i} of {}: got {:x}, expected {:x}", want.len(), got[i], want[i]),
                None => format!("length {} instead of {}", got.len(), want.len()),
            },
        })
    }
    type Draw = fn(&mut NSrc, usize) -> Vec<u128>;
    #[derive(Clone, Copy)]
    pub struct Sh {
        pub w: usize,
        pub nb: u32,
        pub draw: Draw,
    }
    pub const fn sh<P: PackedField<Scalar: Fx>>() -> Sh {
        Sh { w: P::WIDTH, nb: P::Scalar::NB, draw: lanes::<P::Scalar> }
    }
    fn raws<F: Fx>(i: impl Iterator<Item = F>) -> Vec<u128> {
        i.map(|x| x.raw()).collect()
    }
    fn ofs<F: Fx>(v: &[u128]) -> Vec<F> {
        v.iter().map(|x| F::of(*x)).collect()
    }

    // -- single packed values --
    pub struct Acc {
        get: Vec<u128>,
        lists: Vec<(&'static str, Vec<u128>)>,
        short: Vec<u128>,
        long: Vec<u128>,
        set1: Vec<u128>,
        set2: Vec<u128>,
        single: Vec<u128>,
        bad: Vec<bool>,
        try_err: bool,
        off: Vec<u128>,
    }
    pub fn access_ops<P: PackedField<Scalar: Fx>>(a: &[u128], n: usize, i: usize, oob: usize, v: u128) -> Acc {
        let x: P = pk(a);
        let fv = P::Scalar::of(v);
        let (mut s1, mut s2) = (x, x);
        s1.set(i, fv);
        let ok = s2.set_checked(i, fv).is_ok();
        let mut s3 = x;
        let s_bad = s3.set_checked(oob, fv).is_err() && s3 == x;
        let tf: Result<P, ()> = P::try_from_fn(|k| Ok(P::Scalar::of(a[k])));
        let te: Result<P, usize> = P::try_from_fn(|k| if k == i { Err(k) } else { Ok(P::Scalar::of(a[k])) });
        let mut longer = ofs::<P::Scalar>(a);
        longer.push(fv);
        longer.push(P::Scalar::ONE);
        Acc {
            get: (0..P::WIDTH).map(|k| x.get(k).raw()).collect(),
            lists: vec![
                ("iter enumerates the lanes in order", raws(x.iter())),
                ("into_iter enumerates the lanes in order", raws(x.into_iter())),
                ("get_checked returns the lane", (0..P::WIDTH).map(|k| x.get_checked(k).unwrap().raw()).collect()),
                ("try_from_fn fills the lanes in order", tf.map(|t| upk(&t)).unwrap_or_default()),
                ("iter_slice of one value", raws(P::iter_slice(&[x]))),
                ("iter skips exactly", { let mut w = a[..i].to_vec(); w.extend(raws(x.iter().skip(i))); w }),
                ("into_iter skips exactly", { let mut w = a[..i].to_vec(); w.extend(raws(x.into_iter().skip(i))); w }),
                ("nth returns the lane", { let mut w = a.to_vec(); w[i] = x.iter().nth(i).map_or(!0, |e| e.raw()); w }),
            ],
            short: upk(&P::from_scalars(ofs::<P::Scalar>(&a[..n]))),
            long: upk(&P::from_scalars(longer)),
            set1: upk(&s1),
            set2: upk(&s2),
            single: upk(&P::set_single(fv)),
            bad: vec![ok, s_bad, x.get_checked(oob).is_err()],
            try_err: te == Err(i),
            off: upk(&packed_from_fn_with_offset::<P>(3, |k| P::Scalar::of(if k >= 3 * P::WIDTH && k < 4 * P::WIDTH { a[k - 3 * P::WIDTH] } else { 0 }))),
        }
    }
    pub fn access(sh: Sh, f: fn(&[u128], usize, usize, usize, u128) -> Acc, s: &mut NSrc) -> R {
        let a = (sh.draw)(s, sh.w);
        let n = s.range(0, sh.w);
        let i = s.below(sh.w);
        let oob = sh.w + [0, 1, sh.w, 7][s.below(4)];
        let v = s.word(sh.nb);
        let o = f(&a, n, i, oob, v);
        same("get(i) = lane i given to from_fn", &o.get, &a)?;
        for (n, l) in &o.lists {
            same(n, l, &a)?;
        }
        let mut w = a[..n].to_vec();
        w.resize(sh.w, 0);
        same("from_scalars of a short list pads with zero", &o.short, &w)?;
        same("from_scalars ignores excess elements", &o.long, &a)?;
        let mut w = a.clone();
        w[i] = v;
        same("set changes exactly its lane", &o.set1, &w)?;
        same("set_checked changes exactly its lane", &o.set2, &w)?;
        let mut w = vec![0; sh.w];
        w[0] = v;
        same("set_single sets lane 0, zero elsewhere", &o.single, &w)?;
        ensures!(o.bad[0], "set_checked in range is Ok", "{i}");
        ensures!(o.bad[1], "set_checked out of range is an error and changes nothing", "index {oob} width {}", sh.w);
        ensures!(o.bad[2], "get_checked out of range is an error", "index {oob} width {}", sh.w);
        ensures!(o.try_err, "try_from_fn returns the first error", "{i}");
        same("packed_from_fn_with_offset offsets by whole packed elements", &o.off, &a)?;
        Ok(())
    }

    // -- interleave / unzip / spread --
    pub fn inter_ops<P: PackedField<Scalar: Fx>>(a: &[u128], b: &[u128], l: usize) -> [Vec<u128>; 4] {
        let (x, y): (P, P) = (pk(a), pk(b));
        let (p, q) = x.interleave(y, l);
        let (u, v) = x.unzip(y, l);
        [upk(&p), upk(&q), upk(&u), upk(&v)]
    }
    pub fn inter(sh: Sh, f: fn(&[u128], &[u128], usize) -> [Vec<u128>; 4], s: &mut NSrc) -> R {
        let (a, b) = ((sh.draw)(s, sh.w), (sh.draw)(s, sh.w));
        let lw = sh.w.trailing_zeros() as usize;
        let l = s.below(lw);
        let m = 1 << l;
        let o = f(&a, &b, l);
        let blk = |v: &[u128], k: usize| v[k * m..(k + 1) * m].to_vec();
        let nb = sh.w / m;
        let (mut p, mut q, mut u, mut v) = (vec![], vec![], vec![], vec![]);
        for k in (0..nb).step_by(2) {
            p.extend(blk(&a, k));
            p.extend(blk(&b, k));
            q.extend(blk(&a, k + 1));
            q.extend(blk(&b, k + 1));
        }
        for src in [&a, &b] {
            for k in (0..nb).step_by(2) {
                u.extend(blk(src, k));
                v.extend(blk(src, k + 1));
            }
        }
        same(&format!("interleave (log_block_len {l}), first result"), &o[0], &p)?;
        same(&format!("interleave (log_block_len {l}), second result"), &o[1], &q)?;
        same(&format!("unzip (log_block_len {l}), first result"), &o[2], &u)?;
        same(&format!("unzip (log_block_len {l}), second result"), &o[3], &v)?;
        Ok(())
    }
    pub fn spread_ops<P: PackedField<Scalar: Fx>>(a: &[u128], l: usize, k: usize) -> [Vec<u128>; 2] {
        let x: P = pk(a);
        [upk(&x.spread(l, k)), upk(&unsafe { x.spread_unchecked(l, k) })]
    }
    pub fn spread(sh: Sh, f: fn(&[u128], usize, usize) -> [Vec<u128>; 2], s: &mut NSrc) -> R {
        let a = (sh.draw)(s, sh.w);
        let lw = sh.w.trailing_zeros() as usize;
        let l = s.range(0, lw);
        let k = s.below(sh.w >> l);
        let o = f(&a, l, k);
        let w: Vec<u128> = (0..sh.w).map(|i| a[(k << l) + (i >> (lw - l))]).collect();
        same(&format!("spread (log_block_len {l}, block {k})"), &o[0], &w)?;
        same(&format!("spread_unchecked (log_block_len {l}, block {k})"), &o[1], &w)
    }

    // -- slices --
    pub struct Sl {
        lists: Vec<(&'static str, Vec<u128>)>,
        skipped: Vec<u128>,
        seq: Vec<u128>,
        copied: Vec<u128>,
        set: Vec<u128>,
        lens: (usize, usize),
        errs: Vec<bool>,
        parts: Vec<u128>,
    }
    pub fn slice_ops<P: PackedField<Scalar: Fx>>(a: &[u128], m: usize, off: usize, i: usize, v: u128, init: &[u128], big: u128) -> Sl {
        let sc = ofs::<P::Scalar>(a);
        let p: Vec<P> = pack_slice(&sc);
        let mut dst: Vec<P> = init.chunks(P::WIDTH).map(pk).collect();
        copy_packed_from_scalars_slice(&sc[..m], &mut dst);
        let n = len_packed_slice(&p);
        let fv = P::Scalar::of(v);
        let (mut q1, mut q2) = (p.clone(), p.clone());
        let mut q3 = p.clone();
        if i < n {
            set_packed_slice(&mut q1, i, fv);
            set_packed_slice_checked(&mut q2, i, fv).unwrap();
            RandomAccessSequenceMut::set(&mut PackedSliceMut::new(&mut q3), i, fv);
        }
        let eq = q1 == q2 && q1 == q3;
        let mut q4 = p.clone();
        let oob = n + big as usize;
        let view = PackedSlice::new_with_len(&p, m.min(n));
        let flat: Vec<u128> = raws(P::iter_slice(&p));
        let parts = unpack_if_possible(&p, |s| raws(s.iter().copied()), |s| s.iter().flat_map(|x| upk(x)).collect());
        Sl {
            lists: vec![
                ("pack_slice, get_packed_slice", (0..n).map(|k| get_packed_slice(&p, k).raw()).collect()),
                ("get_packed_slice_checked", (0..n).map(|k| get_packed_slice_checked(&p, k).unwrap().raw()).collect()),
                ("iter_slice", flat),
                ("PackedSlice::get", { let z = PackedSlice::new(&p); (0..z.len()).map(|k| RandomAccessSequence::get(&z, k).raw()).collect() }),
                ("PackedSliceMut::get", { let mut c = p.clone(); let z = PackedSliceMut::new(&mut c); (0..z.len()).map(|k| RandomAccessSequence::get(&z, k).raw()).collect() }),
                ("skipping iter_slice", { let mut w = raws(P::iter_slice(&p).take(off)); w.extend(raws(P::iter_slice(&p).skip(off))); w }),
            ],
            skipped: raws(iter_packed_slice_with_offset(&p, off)),
            seq: (0..view.len()).map(|k| RandomAccessSequence::get(&view, k).raw()).collect(),
            copied: raws(P::iter_slice(&dst)),
            set: raws(P::iter_slice(&q1)),
            lens: (n, p.len()),
            errs: vec![eq, get_packed_slice_checked(&p, oob).is_err(), set_packed_slice_checked(&mut q4, oob, fv).is_err() && q4 == p],
            parts,
        }
    }
    pub fn slices(sh: Sh, f: fn(&[u128], usize, usize, usize, u128, &[u128], u128) -> Sl, s: &mut NSrc) -> R {
        let maxn = (3 * sh.w + sh.w / 2).clamp(5, 4096);
        let n = s.range(0, maxn);
        let a = (sh.draw)(s, n);
        let np = n.div_ceil(sh.w) * sh.w;
        let m = s.range(0, n);
        let off = s.range(0, np + 2);
        let i = if np == 0 { 0 } else { s.below(np) };
        let v = s.word(sh.nb);
        let big = [0u128, 1, 5, 1 << 20, 1 << 40][s.below(5)];
        let init = (sh.draw)(s, np + sh.w);
        let o = f(&a, m, off, i, v, &init, big);
        let mut flat = a.clone();
        flat.resize(np, 0);
        ensures!(o.lens == (np, np / sh.w), "pack_slice/len_packed_slice lengths", "{:?} for {n} scalars, width {}", o.lens, sh.w);
        for (n, l) in &o.lists {
            same(n, l, &flat)?;
        }
        same("iter_packed_slice_with_offset skips exactly the offset", &o.skipped, &flat[off.min(np)..])?;
        same("PackedSlice::new_with_len", &o.seq, &flat[..m])?;
        let mut w = init.clone();
        w[..m].copy_from_slice(&a[..m]);
        same("copy_packed_from_scalars_slice writes the scalars and nothing else", &o.copied, &w)?;
        let mut w = flat.clone();
        if np > 0 {
            w[i] = v;
        }
        same("set_packed_slice changes exactly one scalar", &o.set, &w)?;
        ensures!(o.errs[0], "set_packed_slice variants agree");
        ensures!(o.errs[1] && o.errs[2], "out-of-range slice access is an error", "{:?}", o.errs);
        same("unpack_if_possible view", &o.parts, &flat)?;
        Ok(())
    }

    // -- square transpose --
    pub fn transpose_ops<P: PackedField<Scalar: Fx>>(ln: usize, a: &[Vec<u128>]) -> (bool, Vec<Vec<u128>>) {
        let mut v: Vec<P> = a.iter().map(|x| pk(x)).collect();
        let ok = square_transpose(ln, &mut v).is_ok();
        (ok, v.iter().map(upk).collect())
    }
    pub fn transpose(sh: Sh, f: fn(usize, &[Vec<u128>]) -> (bool, Vec<Vec<u128>>), s: &mut NSrc) -> R {
        let lw = sh.w.trailing_zeros() as usize;
        let ln = s.range(0, lw.min(5) + 1);
        let lr = s.range(0, 6);
        let odd = s.below(8) == 0;
        let rows = if odd { 3 } else { 1usize << lr };
        let a: Vec<Vec<u128>> = (0..rows).map(|_| (sh.draw)(s, sh.w)).collect();
        let (ok, o) = f(ln, &a);
        let valid = ln <= lw && !odd && ln <= lr;
        ensures!(ok == valid, "square_transpose accepts exactly valid shapes", "log_n {ln} rows {rows} width {}", sh.w);
        if !valid {
            ensures!(o == a, "square_transpose error leaves the buffer", "");
            return Ok(());
        }
        // rows r = j * 2^log_w + k, columns c = b * 2^ln + t: transposing swaps j and t
        let lwd = lr - ln;
        for r in 0..rows {
            for c in 0..sh.w {
                let (j, k) = (r >> lwd, r & ((1 << lwd) - 1));
                let (b, t) = (c >> ln, c & ((1 << ln) - 1));
                let w = a[(t << lwd) | k][(b << ln) | j];
                ensures!(o[r][c] == w, "square_transpose swaps row and column inside each block", "log_n {ln} rows {rows} at ({r},{c})");
            }
        }
        Ok(())
    }

    // -- views over smaller fields --
    pub fn views<P, G>(s: &mut NSrc) -> R
    where
        G: Fx,
        P: PackedField<Scalar: Fx + ExtensionField<G>> + PackedExtension<G>,
    {
        let n = s.range(0, 3);
        let a: Vec<Vec<u128>> = (0..n).map(|_| lanes::<P::Scalar>(s, P::WIDTH)).collect();
        let v = s.word(G::NB);
        let mut p: Vec<P> = a.iter().map(|x| pk(x)).collect();
        let m = if G::NB == 128 { !0 } else { (1u128 << G::NB) - 1 };
        let d = <P::Scalar as ExtensionField<G>>::DEGREE;
        let sub = |x: u128, j: usize| (x >> (j as u32 * G::NB).min(127)) & m;
        let want: Vec<u128> = a.iter().flatten().flat_map(|x| (0..d).map(move |j| sub(*x, j)).collect::<Vec<_>>()).collect();
        let b = P::cast_bases(&p);
        same("cast_bases enumerates basis coefficients in order", &b.iter().flat_map(|x| raws(x.iter())).collect::<Vec<_>>(), &want)?;
        same("cast_base", &p.iter().flat_map(|x| raws(x.cast_base().iter())).collect::<Vec<_>>(), &want)?;
        same("cast_base_ref", &p.iter().flat_map(|x| raws(x.cast_base_ref().iter())).collect::<Vec<_>>(), &want)?;
        same("iter_bases", &p.iter().flat_map(|x| x.iter().flat_map(|e| raws(e.iter_bases())).collect::<Vec<_>>()).collect::<Vec<_>>(), &want)?;
        ensures!(P::cast_exts(b) == &p[..], "cast_exts undoes cast_bases");
        ensures!(p.iter().all(|x| P::cast_ext(x.cast_base()) == *x && P::cast_ext_ref(x.cast_base_ref()) == x), "cast_ext undoes cast_base");
        if n > 0 {
            let i = s.below(want.len());
            let w = <P::PackedSubfield as PackedField>::WIDTH;
            P::cast_bases_mut(&mut p)[i / w].set(i % w, G::of(v));
            let mut want = want;
            want[i] = v;
            same("writing through cast_bases_mut changes one coefficient", &p.iter().flat_map(|x| raws(x.cast_base().iter())).collect::<Vec<_>>(), &want)?;
            let mut b: Vec<P::PackedSubfield> = P::cast_bases(&p).to_vec();
            ensures!(P::cast_exts_mut(&mut b) == &p[..], "cast_exts_mut undoes cast_bases");
            let mut x = p[0];
            x.cast_base_mut().set(0, G::of(v));
            want[0] = v;
            same("writing through cast_base_mut changes one coefficient", &raws(x.cast_base().iter()), &want[..w])?;
        }
        Ok(())
    }

    // -- bytes --
    struct Coll(Vec<u8>);
    impl ByteIteratorCallback for Coll {
        fn call(&mut self, iter: impl Iterator<Item = u8>) {
            self.0.extend(iter)
        }
    }
    pub fn byte_ops<P: PackedField<Scalar: Fx>>(a: &[Vec<u128>]) -> Option<Vec<u8>> {
        if !can_iterate_bytes::<P>() {
            return None;
        }
        let p: Vec<P> = a.iter().map(|x| pk(x)).collect();
        let mut c = Coll(vec![]);
        iterate_bytes(&p, &mut c);
        Some(c.0)
    }
    pub fn bytes(sh: Sh, f: fn(&[Vec<u128>]) -> Option<Vec<u8>>, s: &mut NSrc) -> R {
        let n = s.range(0, 2);
        let a: Vec<Vec<u128>> = (0..n).map(|_| (sh.draw)(s, sh.w)).collect();
        let Some(got) = f(&a) else { return Ok(()) };
        let flat = a.concat();
        let want: Vec<u128> = if sh.nb >= 8 {
            flat.iter().flat_map(|x| (0..sh.nb / 8).map(move |j| (x >> (8 * j)) & 0xff)).collect()
        } else {
            let per = 8 / sh.nb as usize;
            flat.chunks(per).map(|c| c.iter().enumerate().fold(0, |r, (k, x)| r | x << (k as u32 * sh.nb))).collect()
        };
        same("iterate_bytes yields the scalars' bytes in order", &got.iter().map(|b| *b as u128).collect::<Vec<_>>(), &want)
    }
    pub fn partial_sums<P: PackedField<Scalar: Fx>>(s: &mut NSrc) -> R {
        let n = 8 * s.range(0, 3);
        let v: Vec<P> = (0..n).map(|_| pk(&lanes::<P::Scalar>(s, P::WIDTH))).collect();
        let t = create_partial_sums_lookup_tables(v.as_slice());
        ensures!(t.len() == n * 32, "partial sums table length");
        let i = s.below(t.len().max(1));
        if n > 0 {
            let (c, b) = (i / 256, i % 256);
            let want = (0..8).filter(|j| b >> j & 1 == 1).fold(P::zero(), |r, j| r + v[8 * c + j]);
            ensures!(t[i] == want, "partial sums entry = sum of the selected elements", "entry {i}");
        }
        Ok(())
    }

    // -- byte-sliced transposes --
    #[macro_export]
    macro_rules! sliced_transpose {
        ($r:ident; $($t:ident: $p:ident;)*) => {$(
            $r.sampled(concat!("byte_sliced_transpose/", stringify!($t)), concat!("transpose_to / transpose_from / get_byte_unchecked of ", stringify!($t)), 40, |s| {
                let a = lanes::<<$t as PackedField>::Scalar>(s, $t::WIDTH);
                let x: $t = pk(&a);
                let mut out = [$p::zero(); $t::HEIGHT_BYTES];
                x.transpose_to(&mut out);
                same("transpose_to preserves the order of scalars", &out.iter().flat_map(|p| upk(p)).collect::<Vec<_>>(), &a)?;
                let back = $t::transpose_from(&out);
                same("transpose_from undoes transpose_to", &upk(&back), &a)?;
                let ordinary: Vec<$p> = a.chunks($p::WIDTH).map(pk).collect();
                let y = $t::transpose_from(&ordinary.try_into().unwrap());
                same("transpose_from preserves the order of scalars", &upk(&y), &a)
            });
        )*};
    }

    // -- underliers --
    pub fn underlier_sub<U, T>(s: &mut NSrc) -> R
    where
        U: UnderlierWithBitOps + From<T> + Raw,
        T: UnderlierWithBitOps + NumCast<U> + Raw,
    {
        let n = U::BITS / T::BITS;
        let bits = T::BITS as u32;
        let vals: Vec<u128> = (0..n).map(|_| s.word(bits)).collect();
        let x = U::from_fn(|i| T::of(vals[i]));
        let i = s.below(n);
        let v = s.word(bits);
        let raw = vals.iter().enumerate().fold(0u128, |r, (k, v)| r | v << (k as u32 * bits).min(127));
        ensures!(x.raw() == raw, "underlier from_fn places value i at bit i*BITS", "{:x}", x.raw());
        ensures!((0..n).all(|k| unsafe { x.get_subvalue::<T>(k) }.raw() == vals[k]), "get_subvalue reads value i", "{vals:x?}");
        let mut y = x;
        unsafe { y.set_subvalue::<T>(i, T::of(v)) };
        let mut w = vals.clone();
        w[i] = v;
        ensures!((0..n).all(|k| unsafe { y.get_subvalue::<T>(k) }.raw() == w[k]), "set_subvalue changes exactly value i", "{vals:x?} i={i} v={v:x}");
        let z = U::broadcast_subvalue::<T>(T::of(v));
        ensures!((0..n).all(|k| unsafe { z.get_subvalue::<T>(k) }.raw() == v), "broadcast_subvalue repeats the value", "{v:x}");
        let ln = n.trailing_zeros() as usize;
        let l = s.range(0, ln);
        let k = s.below(n >> l);
        let sp = unsafe { x.spread::<T>(l, k) };
        ensures!((0..n).all(|q| unsafe { sp.get_subvalue::<T>(q) }.raw() == vals[(k << l) + (q >> (ln - l))]), "underlier spread repeats the block", "{vals:x?} l={l} k={k}");
        ensures!(U::fill_with_bit(1) == U::ONES && U::fill_with_bit(0) == U::ZERO && !U::ZERO == U::ONES, "fill_with_bit");
        let sf = s.below(U::BITS);
        let mk = if U::BITS == 128 { !0 } else { (1u128 << U::BITS) - 1 };
        ensures!((x << sf).raw() == (raw << sf) & mk && (x >> sf).raw() == raw >> sf, "underlier shifts", "{raw:x} by {sf}");
        Ok(())
    }
    /// Full shifts of 256/512-bit underliers against bit lists.
    pub fn wide_shift<U: UnderlierWithBitOps + From<[u128; N]>, const N: usize>(s: &mut NSrc) -> R {
        let v: [u128; N] = std::array::from_fn(|_| s.u128());
        assert_eq!(std::mem::size_of::<U>(), 16 * N);
        let raw = |u: U| -> [u128; N] { unsafe { std::mem::transmute_copy(&u) } };
        let x = U::from(v);
        let sh = s.below(128 * N);
        let bit = |v: &[u128; N], k: usize| (v[k / 128] >> (k % 128)) & 1;
        let l: [u128; N] = raw(x << sh);
        let r: [u128; N] = raw(x >> sh);
        for k in 0..128 * N {
            let wl = if k >= sh { bit(&v, k - sh) } else { 0 };
            let wr = if k + sh < 128 * N { bit(&v, k + sh) } else { 0 };
            ensures!(bit(&l, k) == wl, "left shift of a wide underlier", "{v:x?} << {sh}, bit {k}");
            ensures!(bit(&r, k) == wr, "right shift of a wide underlier", "{v:x?} >> {sh}, bit {k}");
        }
        let sl = s.below(128);
        let l: [u128; N] = raw(x.shl_128b_lanes(sl));
        let r: [u128; N] = raw(x.shr_128b_lanes(sl));
        ensures!((0..N).all(|k| l[k] == v[k] << sl && r[k] == v[k] >> sl), "shifts within 128-bit lanes", "{v:x?} by {sl}");
        let w: [u128; N] = std::array::from_fn(|_| s.u128());
        let y = U::from(w);
        let lb = s.range(0, 6);
        let lo: [u128; N] = raw(x.unpack_lo_128b_lanes(y, lb));
        let hi: [u128; N] = raw(x.unpack_hi_128b_lanes(y, lb));
        let b = 1usize << lb;
        let blk = |v: u128, k: usize| (v >> (k * b)) & (if b == 128 { !0 } else { (1u128 << b) - 1 });
        for k in 0..N {
            let half = 64 / b;
            for t in 0..half {
                let o = |v: u128, q: usize| blk(v, q);
                ensures!(o(lo[k], 2 * t) == blk(v[k], t) && o(lo[k], 2 * t + 1) == blk(w[k], t), "unpack_lo interleaves the low halves", "block {lb} lane {k}");
                ensures!(o(hi[k], 2 * t) == blk(v[k], half + t) && o(hi[k], 2 * t + 1) == blk(w[k], half + t), "unpack_hi interleaves the high halves", "block {lb} lane {k}");
            }
        }
        Ok(())
    }
    pub fn register(r: &mut Runner) {
        macro_rules! all { ($($p:ident)*) => {$(
            { let n = (6000 / <$p as PackedField>::WIDTH as u64).clamp(8, 300);
            r.sampled(concat!("access/", stringify!($p)), concat!("get/set/iter/from_scalars/try_from_fn (and checked forms) of ", stringify!($p)), n, |s| access(const { sh::<$p>() }, access_ops::<$p>, s));
            if <$p as PackedField>::LOG_WIDTH > 0 {
                r.sampled(concat!("interleave/", stringify!($p)), concat!("interleave, unzip of ", stringify!($p)), n, |s| inter(const { sh::<$p>() }, inter_ops::<$p>, s));
            }
            r.sampled(concat!("spread/", stringify!($p)), concat!("spread, spread_unchecked of ", stringify!($p)), n, |s| spread(const { sh::<$p>() }, spread_ops::<$p>, s)); }
        )*} }
        scalar_fields!(all);
        packed_tower!(all);
        packed_aes!(all);
        packed_polyval!(all);
        packed_sliced!(all);
        packed_sliced_bits!(all);
        macro_rules! by { ($($p:ident)*) => {$(
            r.sampled(concat!("bytes/", stringify!($p)), concat!("iterate_bytes of ", stringify!($p)), 100, |s| bytes(const { sh::<$p>() }, byte_ops::<$p>, s));
        )*} }
        by!(BinaryField8b BinaryField32b BinaryField128b PackedBinaryField8x1b PackedBinaryField64x2b PackedBinaryField128x1b PackedBinaryField16x8b PackedBinaryField4x32b PackedBinaryField256x1b PackedBinaryField8x64b PackedAESBinaryField16x8b PackedAESBinaryField8x32b PackedAESBinaryField4x128b ByteSlicedAES16x32b ByteSlicedAES2x32x64b ByteSlicedAES16x64x8b);
        packed_sliced_bits!(by);
        macro_rules! sl { ($($p:ident)*) => {$(
            { let n = (3000 / <$p as PackedField>::WIDTH as u64).clamp(8, 100);
            r.sampled(concat!("slices/", stringify!($p)), concat!("pack_slice, copy_packed_from_scalars_slice, get/set_packed_slice, PackedSlice(Mut), iterators over ", stringify!($p)), n, |s| slices(const { sh::<$p>() }, slice_ops::<$p>, s)); }
        )*} }
        packed_tower!(sl);
        packed_polyval!(sl);
        sl!(BinaryField1b BinaryField8b BinaryField128b PackedAESBinaryField2x8b PackedAESBinaryField16x8b PackedAESBinaryField32x8b PackedAESBinaryField4x32b PackedAESBinaryField2x128b PackedAESBinaryField8x64b ByteSlicedAES16x128b ByteSlicedAES2x32x64b ByteSlicedAES4x64x32b ByteSlicedAES8x16x16b ByteSliced8x128x1b ByteSliced1x256x1b);
        macro_rules! tr { ($($p:ident)*) => {$(
            r.sampled(concat!("square_transpose/", stringify!($p)), concat!("square_transpose over ", stringify!($p)), 30, |s| transpose(const { sh::<$p>() }, transpose_ops::<$p>, s));
        )*} }
        packed_tower!(tr);
        tr!(PackedAESBinaryField16x8b PackedAESBinaryField32x8b PackedAESBinaryField4x32b ByteSlicedAES16x128b ByteSlicedAES16x8b PackedBinaryPolyval4x128b);
        macro_rules! vw { ($($p:ident: $($g:ident)*;)*) => {$($(
            r.sampled(concat!("views/", stringify!($p), "/", stringify!($g)), concat!("PackedExtension casts of ", stringify!($p), " over ", stringify!($g)), 40, |s| views::<$p, $g>(s));
        )*)*} }
        vw! {
            PackedBinaryField1x8b: BinaryField1b BinaryField2b BinaryField4b BinaryField8b;
            PackedBinaryField4x8b: BinaryField1b BinaryField2b BinaryField4b BinaryField8b;
            PackedBinaryField4x16b: BinaryField1b BinaryField8b BinaryField16b;
            PackedBinaryField2x32b: BinaryField1b BinaryField2b BinaryField8b BinaryField16b BinaryField32b;
            PackedBinaryField16x8b: BinaryField1b BinaryField2b BinaryField4b BinaryField8b;
            PackedBinaryField8x16b: BinaryField1b BinaryField8b BinaryField16b;
            PackedBinaryField4x32b: BinaryField1b BinaryField8b BinaryField16b BinaryField32b;
            PackedBinaryField2x64b: BinaryField1b BinaryField8b BinaryField16b BinaryField32b;
            PackedBinaryField1x128b: BinaryField1b BinaryField2b BinaryField4b BinaryField8b BinaryField16b BinaryField32b BinaryField64b BinaryField128b;
            PackedBinaryField2x128b: BinaryField1b BinaryField8b BinaryField16b BinaryField32b BinaryField64b BinaryField128b;
            PackedBinaryField4x128b: BinaryField1b BinaryField8b BinaryField16b BinaryField32b BinaryField64b BinaryField128b;
            PackedAESBinaryField8x16b: AESTowerField8b AESTowerField16b;
            PackedAESBinaryField1x128b: AESTowerField8b AESTowerField16b AESTowerField32b AESTowerField64b;
            PackedAESBinaryField2x128b: AESTowerField8b AESTowerField32b AESTowerField64b;
            BinaryField128b: BinaryField1b BinaryField8b BinaryField32b;
            BinaryField32b: BinaryField1b BinaryField8b BinaryField16b;
        }
        sliced_transpose! { r;
            ByteSlicedAES16x128b: PackedAESBinaryField1x128b; ByteSlicedAES16x64b: PackedAESBinaryField2x64b; ByteSlicedAES2x16x64b: PackedAESBinaryField2x64b;
            ByteSlicedAES16x32b: PackedAESBinaryField4x32b; ByteSlicedAES4x16x32b: PackedAESBinaryField4x32b; ByteSlicedAES16x16b: PackedAESBinaryField8x16b; ByteSlicedAES8x16x16b: PackedAESBinaryField8x16b;
            ByteSlicedAES16x8b: PackedAESBinaryField16x8b; ByteSlicedAES16x16x8b: PackedAESBinaryField16x8b;
            ByteSlicedAES32x128b: PackedAESBinaryField2x128b; ByteSlicedAES32x64b: PackedAESBinaryField4x64b; ByteSlicedAES2x32x64b: PackedAESBinaryField4x64b;
            ByteSlicedAES32x32b: PackedAESBinaryField8x32b; ByteSlicedAES4x32x32b: PackedAESBinaryField8x32b; ByteSlicedAES32x16b: PackedAESBinaryField16x16b; ByteSlicedAES8x32x16b: PackedAESBinaryField16x16b;
            ByteSlicedAES32x8b: PackedAESBinaryField32x8b; ByteSlicedAES16x32x8b: PackedAESBinaryField32x8b;
            ByteSlicedAES64x128b: PackedAESBinaryField4x128b; ByteSlicedAES64x64b: PackedAESBinaryField8x64b; ByteSlicedAES2x64x64b: PackedAESBinaryField8x64b;
            ByteSlicedAES64x32b: PackedAESBinaryField16x32b; ByteSlicedAES4x64x32b: PackedAESBinaryField16x32b; ByteSlicedAES64x16b: PackedAESBinaryField32x16b; ByteSlicedAES8x64x16b: PackedAESBinaryField32x16b;
            ByteSlicedAES64x8b: PackedAESBinaryField64x8b; ByteSlicedAES16x64x8b: PackedAESBinaryField64x8b;
            ByteSliced16x128x1b: PackedBinaryField128x1b; ByteSliced8x128x1b: PackedBinaryField128x1b; ByteSliced4x128x1b: PackedBinaryField128x1b; ByteSliced2x128x1b: PackedBinaryField128x1b; ByteSliced1x128x1b: PackedBinaryField128x1b;
            ByteSliced16x256x1b: PackedBinaryField256x1b; ByteSliced8x256x1b: PackedBinaryField256x1b; ByteSliced4x256x1b: PackedBinaryField256x1b; ByteSliced2x256x1b: PackedBinaryField256x1b; ByteSliced1x256x1b: PackedBinaryField256x1b;
            ByteSliced16x512x1b: PackedBinaryField512x1b; ByteSliced8x512x1b: PackedBinaryField512x1b; ByteSliced4x512x1b: PackedBinaryField512x1b; ByteSliced2x512x1b: PackedBinaryField512x1b; ByteSliced1x512x1b: PackedBinaryField512x1b;
        }
        macro_rules! us { ($($u:ident: $($t:ident)*;)*) => {$($(
            r.sampled(concat!("underlier/", stringify!($u), "/", stringify!($t)), concat!("from_fn, get_subvalue, set_subvalue, broadcast_subvalue, spread, shifts: ", stringify!($u), " of ", stringify!($t)), 200, |s| underlier_sub::<$u, $t>(s));
        )*)*} }
        us! {
            u128: U1 U2 U4 u8 u16 u32 u64; u64: U1 U2 U4 u8 u16 u32; u32: U1 U2 U4 u8 u16; u16: U1 U2 U4 u8; u8: U1 U2 U4; U4: U1 U2; U2: U1;
        }
        r.sampled("wide_shift/256", "Shl/Shr, lane shifts, unpack of the 256-bit underlier", 300, |s| wide_shift::<<PackedBinaryField2x128b as WithUnderlier>::Underlier, 2>(s));
        r.sampled("wide_shift/512", "Shl/Shr, lane shifts, unpack of the 512-bit underlier", 300, |s| wide_shift::<<PackedBinaryField4x128b as WithUnderlier>::Underlier, 4>(s));
        r.sampled("partial_sums/BinaryField32b", "create_partial_sums_lookup_tables", 100, |s| partial_sums::<BinaryField32b>(s));
        r.sampled("partial_sums/PackedBinaryField4x32b", "create_partial_sums_lookup_tables", 100, |s| partial_sums::<PackedBinaryField4x32b>(s));
        super::obligations(r);
    }
}

pub trait Raw: Sized {
    fn of(v: u128) -> Self;
    fn raw(self) -> u128;
}
macro_rules! raw { ($($t:ty)*) => {$( impl Raw for $t { fn of(v: u128) -> Self { v as $t } fn raw(self) -> u128 { self as u128 } } )*} }
raw!(u8 u16 u32 u64 u128);
macro_rules! raws_small { ($($t:ident)*) => {$( impl Raw for $t { fn of(v: u128) -> Self { $t::new(v as u8) } fn raw(self) -> u128 { self.val() as u128 } } )*} }
raws_small!(U1 U2 U4);
/// Little-endian view of an underlier of at most 128 bits.
fn uof<U>(v: u128) -> U {
    unsafe {
        match std::mem::size_of::<U>() {
            1 => std::mem::transmute_copy(&(v as u8)),
            2 => std::mem::transmute_copy(&(v as u16)),
            4 => std::mem::transmute_copy(&(v as u32)),
            8 => std::mem::transmute_copy(&(v as u64)),
            16 => std::mem::transmute_copy(&v),
            _ => unreachable!(),
        }
    }
}
fn ur<U>(u: U) -> u128 {
    unsafe {
        match std::mem::size_of::<U>() {
            1 => std::mem::transmute_copy::<U, u8>(&u) as u128,
            2 => std::mem::transmute_copy::<U, u16>(&u) as u128,
            4 => std::mem::transmute_copy::<U, u32>(&u) as u128,
            8 => std::mem::transmute_copy::<U, u64>(&u) as u128,
            16 => std::mem::transmute_copy::<U, u128>(&u),
            _ => unreachable!(),
        }
    }
}
fn m(nb: u32) -> u128 {
    if nb == 128 { !0 } else { (1u128 << nb) - 1 }
}
fn lane(u: u128, nb: u32, k: usize) -> u128 {
    (u >> (k as u32 * nb)) & m(nb)
}
fn ub<P: WithUnderlier>() -> u32 {
    P::Underlier::BITS as u32
}
/// get / set / get_checked / set_checked / broadcast / set_single against the bits of the underlier.
fn kacc<P: PackedField<Scalar: Fx> + WithUnderlier>(s: &mut impl Src) -> R {
    let u = s.word(ub::<P>());
    let nb = P::Scalar::NB;
    let x = P::from_underlier(uof(u));
    let (i, j) = (s.below(P::WIDTH), s.below(P::WIDTH));
    let v = s.word(nb);
    let fv = P::Scalar::of(v);
    ensures!(x.get(i).raw() == lane(u, nb, i), "get(i) is lane i of the underlier");
    let mut y = x;
    y.set(i, fv);
    let w = ur(y.to_underlier());
    ensures!(lane(w, nb, j) == if i == j { v } else { lane(u, nb, j) }, "set changes exactly its lane");
    let b = ur(P::broadcast(fv).to_underlier());
    ensures!(lane(b, nb, j) == v, "broadcast repeats the scalar");
    let b = ur(P::set_single(fv).to_underlier());
    ensures!(lane(b, nb, j) == if j == 0 { v } else { 0 }, "set_single sets lane 0 only");
    let o = s.u64() as usize;
    let mut z = x;
    let (g, t) = (x.get_checked(o), z.set_checked(o, fv));
    if o < P::WIDTH {
        ensures!(g.is_ok() && g.unwrap().raw() == lane(u, nb, o), "get_checked in range");
        ensures!(t.is_ok() && z.get(o).raw() == v, "set_checked in range");
    } else {
        ensures!(g.is_err() && t.is_err(), "checked access out of range is an error");
        ensures!(ur(z.to_underlier()) == u, "failed set_checked changes nothing");
    }
    Ok(())
}
/// interleave and unzip at every block length, any lane.
fn kint<P: PackedField<Scalar: Fx> + WithUnderlier>(s: &mut impl Src) -> R {
    let (a, b) = (s.word(ub::<P>()), s.word(ub::<P>()));
    let nb = P::Scalar::NB;
    let (x, y) = (P::from_underlier(uof(a)), P::from_underlier(uof(b)));
    let l = s.below(P::LOG_WIDTH);
    let k = s.below(P::WIDTH);
    let (p, q) = x.interleave(y, l);
    let (u, v) = x.unzip(y, l);
    let bs = 1usize << l;
    let src = if (k >> l) & 1 == 0 { a } else { b };
    let lo = k & !bs;
    ensures!(lane(ur(p.to_underlier()), nb, k) == lane(src, nb, lo), "interleave, first result");
    ensures!(lane(ur(q.to_underlier()), nb, k) == lane(src, nb, lo | bs), "interleave, second result");
    let h = P::WIDTH / 2;
    let (src, kk) = if k < h { (a, k) } else { (b, k - h) };
    let pos = ((kk >> l) << (l + 1)) | (kk & (bs - 1));
    ensures!(lane(ur(u.to_underlier()), nb, k) == lane(src, nb, pos), "unzip, first result");
    ensures!(lane(ur(v.to_underlier()), nb, k) == lane(src, nb, pos | bs), "unzip, second result");
    Ok(())
}
fn kspread<P: PackedField<Scalar: Fx> + WithUnderlier>(s: &mut impl Src) -> R {
    let a = s.word(ub::<P>());
    let nb = P::Scalar::NB;
    let x = P::from_underlier(uof(a));
    let l = s.below(P::LOG_WIDTH + 1);
    let blk = s.below(P::WIDTH >> l);
    let k = s.below(P::WIDTH);
    let y = x.spread(l, blk);
    ensures!(lane(ur(y.to_underlier()), nb, k) == lane(a, nb, (blk << l) + (k >> (P::LOG_WIDTH - l))), "spread repeats the block");
    Ok(())
}
/// from_fn / iter / from_scalars over every lane.
fn kfn<P: PackedField<Scalar: Fx> + WithUnderlier>(s: &mut impl Src) -> R {
    let u = s.word(ub::<P>());
    let nb = P::Scalar::NB;
    let n = s.range(0, P::WIDTH);
    let k = s.below(P::WIDTH);
    let x = P::from_fn(|i| P::Scalar::of(lane(u, nb, i)));
    ensures!(ur(x.to_underlier()) == u, "from_fn fills the lanes in order");
    let y = P::from_scalars((0..n).map(|i| P::Scalar::of(lane(u, nb, i))));
    ensures!(lane(ur(y.to_underlier()), nb, k) == if k < n { lane(u, nb, k) } else { 0 }, "from_scalars pads with zero");
    let mut i = 0;
    for e in x.iter() {
        ensures!(e.raw() == lane(u, nb, i), "iter enumerates the lanes");
        i += 1;
    }
    ensures!(i == P::WIDTH, "iter yields WIDTH items");
    Ok(())
}
/// Slices of two packed elements: indexed access, length, copy of any prefix.
fn kslice<P: PackedField<Scalar: Fx> + WithUnderlier>(s: &mut impl Src) -> R {
    let nb = P::Scalar::NB;
    let u = [s.word(ub::<P>()), s.word(ub::<P>())];
    let p = [P::from_underlier(uof(u[0])), P::from_underlier(uof(u[1]))];
    let w = P::WIDTH;
    let old = |k: usize| lane(u[k / w], nb, k % w);
    let (i, j) = (s.below(2 * w), s.below(2 * w));
    ensures!(len_packed_slice(&p) == 2 * w, "len_packed_slice");
    ensures!(get_packed_slice(&p, i).raw() == old(i), "get_packed_slice");
    let v = s.word(nb);
    let mut q = p;
    set_packed_slice(&mut q, i, P::Scalar::of(v));
    ensures!(get_packed_slice(&q, j).raw() == if i == j { v } else { old(j) }, "set_packed_slice changes exactly one scalar");
    let o = s.u64() as usize;
    ensures!(get_packed_slice_checked(&p, o).is_ok() == (o < 2 * w), "get_packed_slice_checked bound");
    ensures!(set_packed_slice_checked(&mut q, o, P::Scalar::of(v)).is_ok() == (o < 2 * w), "set_packed_slice_checked bound");
    Ok(())
}
fn kcopy<P: PackedField<Scalar: Fx> + WithUnderlier>(s: &mut impl Src, n: usize) -> R {
    let nb = P::Scalar::NB;
    let u = [s.word(ub::<P>()), s.word(ub::<P>())];
    let mut p = [P::from_underlier(uof(u[0])), P::from_underlier(uof(u[1]))];
    let w = P::WIDTH;
    let old = |k: usize| lane(u[k / w], nb, k % w);
    let j = s.below(2 * w);
    let src: [P::Scalar; 6] = [el(s), el(s), el(s), el(s), el(s), el(s)];
    copy_packed_from_scalars_slice(&src[..n], &mut p);
    ensures!(get_packed_slice(&p, j).raw() == if j < n { src[j].raw() } else { old(j) }, "copy_packed_from_scalars_slice writes the scalars and nothing else");
    Ok(())
}
fn kiter<P: PackedField<Scalar: Fx> + WithUnderlier>(s: &mut impl Src, off: usize) -> R {
    let nb = P::Scalar::NB;
    let u = [s.word(ub::<P>()), s.word(ub::<P>())];
    let p = [P::from_underlier(uof(u[0])), P::from_underlier(uof(u[1]))];
    let w = P::WIDTH;
    let mut k = off;
    for e in iter_packed_slice_with_offset(&p, off) {
        ensures!(e.raw() == lane(u[k / w], nb, k % w), "iter_packed_slice_with_offset");
        k += 1;
    }
    ensures!(k == 2 * w, "iter_packed_slice_with_offset length");
    Ok(())
}
fn ksub<U: UnderlierWithBitOps + From<T> + Raw, T: UnderlierWithBitOps + NumCast<U> + Raw>(s: &mut impl Src) -> R {
    let u = s.word(U::BITS as u32);
    let nb = T::BITS as u32;
    let n = U::BITS / T::BITS;
    let x = U::of(u);
    let (i, j) = (s.below(n), s.below(n));
    let v = s.word(nb);
    ensures!(unsafe { x.get_subvalue::<T>(i) }.raw() == lane(u, nb, i), "get_subvalue");
    let mut y = x;
    unsafe { y.set_subvalue::<T>(i, T::of(v)) };
    ensures!(lane(y.raw(), nb, j) == if i == j { v } else { lane(u, nb, j) }, "set_subvalue changes exactly one value");
    ensures!(lane(U::broadcast_subvalue::<T>(T::of(v)).raw(), nb, j) == v, "broadcast_subvalue");
    Ok(())
}
fn ktrans<P: PackedField<Scalar: Fx> + WithUnderlier, const N: usize>(s: &mut impl Src, ln: usize) -> R {
    let nb = P::Scalar::NB;
    let u: [u128; N] = std::array::from_fn(|_| s.word(ub::<P>()));
    let mut v: [P; N] = std::array::from_fn(|i| P::from_underlier(uof(u[i])));
    let lr = N.trailing_zeros() as usize;
    let r = square_transpose(ln, &mut v);
    let ok = ln <= P::LOG_WIDTH && ln <= lr;
    ensures!(r.is_ok() == ok, "square_transpose accepts exactly valid shapes");
    let (i, c) = (s.below(N), s.below(P::WIDTH));
    let got = lane(ur(v[i].to_underlier()), nb, c);
    if ok {
        let lwd = lr - ln;
        let (j, k) = (i >> lwd, i & ((1 << lwd) - 1));
        let (b, t) = (c >> ln, c & ((1 << ln) - 1));
        ensures!(got == lane(u[(t << lwd) | k], nb, (b << ln) | j), "square_transpose swaps row and column inside each block");
    } else {
        ensures!(got == lane(u[i], nb, c), "square_transpose error leaves the buffer");
    }
    Ok(())
}
obligations! {
    acc_1x1b, quick, 10, "complete", "get/set/get_checked/set_checked/broadcast/set_single of PackedBinaryField1x1b", |s| kacc::<PackedBinaryField1x1b>(s);
    acc_2x1b, quick, 10, "complete", "get/set/get_checked/set_checked/broadcast/set_single of PackedBinaryField2x1b", |s| kacc::<PackedBinaryField2x1b>(s);
    acc_4x1b, quick, 10, "complete", "get/set/get_checked/set_checked/broadcast/set_single of PackedBinaryField4x1b", |s| kacc::<PackedBinaryField4x1b>(s);
    acc_8x1b, quick, 10, "complete", "get/set/get_checked/set_checked/broadcast/set_single of PackedBinaryField8x1b", |s| kacc::<PackedBinaryField8x1b>(s);
    acc_16x1b, quick, 10, "complete", "get/set/get_checked/set_checked/broadcast/set_single of PackedBinaryField16x1b", |s| kacc::<PackedBinaryField16x1b>(s);
    acc_32x1b, quick, 10, "complete", "get/set/get_checked/set_checked/broadcast/set_single of PackedBinaryField32x1b", |s| kacc::<PackedBinaryField32x1b>(s);
    acc_64x1b, quick, 10, "complete", "get/set/get_checked/set_checked/broadcast/set_single of PackedBinaryField64x1b", |s| kacc::<PackedBinaryField64x1b>(s);
    acc_128x1b, quick, 10, "complete", "get/set/get_checked/set_checked/broadcast/set_single of PackedBinaryField128x1b", |s| kacc::<PackedBinaryField128x1b>(s);
    acc_4x2b, quick, 10, "complete", "get/set/get_checked/set_checked/broadcast/set_single of PackedBinaryField4x2b", |s| kacc::<PackedBinaryField4x2b>(s);
    acc_2x4b, quick, 10, "complete", "get/set/get_checked/set_checked/broadcast/set_single of PackedBinaryField2x4b", |s| kacc::<PackedBinaryField2x4b>(s);
    acc_1x8b, quick, 10, "complete", "get/set/get_checked/set_checked/broadcast/set_single of PackedBinaryField1x8b", |s| kacc::<PackedBinaryField1x8b>(s);
    acc_8x4b, quick, 10, "complete", "get/set/get_checked/set_checked/broadcast/set_single of PackedBinaryField8x4b", |s| kacc::<PackedBinaryField8x4b>(s);
    acc_4x8b, quick, 10, "complete", "get/set/get_checked/set_checked/broadcast/set_single of PackedBinaryField4x8b", |s| kacc::<PackedBinaryField4x8b>(s);
    acc_16x8b, quick, 10, "complete", "get/set/get_checked/set_checked/broadcast/set_single of PackedBinaryField16x8b", |s| kacc::<PackedBinaryField16x8b>(s);
    acc_8x16b, quick, 10, "complete", "get/set/get_checked/set_checked/broadcast/set_single of PackedBinaryField8x16b", |s| kacc::<PackedBinaryField8x16b>(s);
    acc_4x32b, quick, 10, "complete", "get/set/get_checked/set_checked/broadcast/set_single of PackedBinaryField4x32b", |s| kacc::<PackedBinaryField4x32b>(s);
    acc_2x64b, quick, 10, "complete", "get/set/get_checked/set_checked/broadcast/set_single of PackedBinaryField2x64b", |s| kacc::<PackedBinaryField2x64b>(s);
    acc_1x128b, quick, 10, "complete", "get/set/get_checked/set_checked/broadcast/set_single of PackedBinaryField1x128b", |s| kacc::<PackedBinaryField1x128b>(s);
    int_2x1b, quick, 8, "complete", "interleave/unzip of PackedBinaryField2x1b", |s| kint::<PackedBinaryField2x1b>(s);
    int_4x1b, quick, 8, "complete", "interleave/unzip of PackedBinaryField4x1b", |s| kint::<PackedBinaryField4x1b>(s);
    int_2x2b, quick, 8, "complete", "interleave/unzip of PackedBinaryField2x2b", |s| kint::<PackedBinaryField2x2b>(s);
    int_8x1b, quick, 8, "complete", "interleave/unzip of PackedBinaryField8x1b", |s| kint::<PackedBinaryField8x1b>(s);
    int_16x1b, quick, 8, "complete", "interleave/unzip of PackedBinaryField16x1b", |s| kint::<PackedBinaryField16x1b>(s);
    int_32x1b, quick, 8, "complete", "interleave/unzip of PackedBinaryField32x1b", |s| kint::<PackedBinaryField32x1b>(s);
    int_64x1b, quick, 8, "complete", "interleave/unzip of PackedBinaryField64x1b", |s| kint::<PackedBinaryField64x1b>(s);
    int_128x1b, quick, 8, "complete", "interleave/unzip of PackedBinaryField128x1b", |s| kint::<PackedBinaryField128x1b>(s);
    int_64x2b, quick, 8, "complete", "interleave/unzip of PackedBinaryField64x2b", |s| kint::<PackedBinaryField64x2b>(s);
    int_32x4b, quick, 8, "complete", "interleave/unzip of PackedBinaryField32x4b", |s| kint::<PackedBinaryField32x4b>(s);
    int_16x8b, quick, 8, "complete", "interleave/unzip of PackedBinaryField16x8b", |s| kint::<PackedBinaryField16x8b>(s);
    int_8x16b, quick, 8, "complete", "interleave/unzip of PackedBinaryField8x16b", |s| kint::<PackedBinaryField8x16b>(s);
    int_4x32b, quick, 8, "complete", "interleave/unzip of PackedBinaryField4x32b", |s| kint::<PackedBinaryField4x32b>(s);
    int_2x64b, quick, 8, "complete", "interleave/unzip of PackedBinaryField2x64b", |s| kint::<PackedBinaryField2x64b>(s);
    spread_4x1b, quick, 6, "complete", "spread of PackedBinaryField4x1b", |s| kspread::<PackedBinaryField4x1b>(s);
    spread_8x1b, quick, 10, "complete", "spread of PackedBinaryField8x1b", |s| kspread::<PackedBinaryField8x1b>(s);
    spread_32x1b, quick, 34, "complete", "spread of PackedBinaryField32x1b", |s| kspread::<PackedBinaryField32x1b>(s);
    spread_128x1b, thorough, 130, "complete", "spread of PackedBinaryField128x1b", |s| kspread::<PackedBinaryField128x1b>(s);
    spread_16x8b, quick, 18, "complete", "spread of PackedBinaryField16x8b", |s| kspread::<PackedBinaryField16x8b>(s);
    spread_4x32b, quick, 6, "complete", "spread of PackedBinaryField4x32b", |s| kspread::<PackedBinaryField4x32b>(s);
    spread_2x64b, quick, 4, "complete", "spread of PackedBinaryField2x64b", |s| kspread::<PackedBinaryField2x64b>(s);
    fn_8x1b, quick, 10, "complete", "from_fn/from_scalars/iter of PackedBinaryField8x1b", |s| kfn::<PackedBinaryField8x1b>(s);
    fn_16x1b, quick, 18, "complete", "from_fn/from_scalars/iter of PackedBinaryField16x1b", |s| kfn::<PackedBinaryField16x1b>(s);
    fn_16x8b, quick, 18, "complete", "from_fn/from_scalars/iter of PackedBinaryField16x8b", |s| kfn::<PackedBinaryField16x8b>(s);
    fn_4x32b, quick, 6, "complete", "from_fn/from_scalars/iter of PackedBinaryField4x32b", |s| kfn::<PackedBinaryField4x32b>(s);
    fn_2x64b, quick, 4, "complete", "from_fn/from_scalars/iter of PackedBinaryField2x64b", |s| kfn::<PackedBinaryField2x64b>(s);
    sub_u128_u1, quick, 130, "complete", "get_subvalue/set_subvalue/broadcast_subvalue: u128 of U1", |s| ksub::<u128, U1>(s);
    sub_u128_u4, quick, 66, "complete", "get_subvalue/set_subvalue/broadcast_subvalue: u128 of U4", |s| ksub::<u128, U4>(s);
    sub_u128_u8, quick, 66, "complete", "get_subvalue/set_subvalue/broadcast_subvalue: u128 of u8", |s| ksub::<u128, u8>(s);
    sub_u128_u64, quick, 66, "complete", "get_subvalue/set_subvalue/broadcast_subvalue: u128 of u64", |s| ksub::<u128, u64>(s);
    sub_u64_u16, quick, 66, "complete", "get_subvalue/set_subvalue/broadcast_subvalue: u64 of u16", |s| ksub::<u64, u16>(s);
    sub_u32_u2, quick, 66, "complete", "get_subvalue/set_subvalue/broadcast_subvalue: u32 of U2", |s| ksub::<u32, U2>(s);
    sub_u8_u1, quick, 66, "complete", "get_subvalue/set_subvalue/broadcast_subvalue: u8 of U1", |s| ksub::<u8, U1>(s);
    sub_u4_u1, quick, 66, "complete", "get_subvalue/set_subvalue/broadcast_subvalue: U4 of U1", |s| ksub::<U4, U1>(s);
    slice_8x1b, quick, 10, "bounded: slices of two packed elements", "get/set_packed_slice(_checked), len_packed_slice over PackedBinaryField8x1b", |s| kslice::<PackedBinaryField8x1b>(s);
    slice_4x2b, quick, 10, "bounded: slices of two packed elements", "get/set_packed_slice(_checked), len_packed_slice over PackedBinaryField4x2b", |s| kslice::<PackedBinaryField4x2b>(s);
    slice_4x8b, quick, 10, "bounded: slices of two packed elements", "get/set_packed_slice(_checked), len_packed_slice over PackedBinaryField4x8b", |s| kslice::<PackedBinaryField4x8b>(s);
    slice_4x32b, quick, 10, "bounded: slices of two packed elements", "get/set_packed_slice(_checked), len_packed_slice over PackedBinaryField4x32b", |s| kslice::<PackedBinaryField4x32b>(s);
    copy_4x2b_6, quick, 10, "bounded: two packed elements, fixed number of scalars", "copy_packed_from_scalars_slice over PackedBinaryField4x2b", |s| kcopy::<PackedBinaryField4x2b>(s, 6);
    copy_4x2b_4, quick, 10, "bounded: two packed elements, fixed number of scalars", "copy_packed_from_scalars_slice over PackedBinaryField4x2b", |s| kcopy::<PackedBinaryField4x2b>(s, 4);
    copy_4x2b_3, quick, 10, "bounded: two packed elements, fixed number of scalars", "copy_packed_from_scalars_slice over PackedBinaryField4x2b", |s| kcopy::<PackedBinaryField4x2b>(s, 3);
    copy_2x64b_3, quick, 10, "bounded: two packed elements, fixed number of scalars", "copy_packed_from_scalars_slice over PackedBinaryField2x64b", |s| kcopy::<PackedBinaryField2x64b>(s, 3);
    copy_2x4b_3, quick, 10, "bounded: two packed elements, fixed number of scalars", "copy_packed_from_scalars_slice over PackedBinaryField2x4b", |s| kcopy::<PackedBinaryField2x4b>(s, 3);
    copy_4x8b_5, quick, 10, "bounded: two packed elements, fixed number of scalars", "copy_packed_from_scalars_slice over PackedBinaryField4x8b", |s| kcopy::<PackedBinaryField4x8b>(s, 5);
    iter_4x2b_0, quick, 10, "bounded: two packed elements, fixed offset", "iter_packed_slice_with_offset over PackedBinaryField4x2b", |s| kiter::<PackedBinaryField4x2b>(s, 0);
    iter_4x2b_3, quick, 10, "bounded: two packed elements, fixed offset", "iter_packed_slice_with_offset over PackedBinaryField4x2b", |s| kiter::<PackedBinaryField4x2b>(s, 3);
    iter_4x2b_4, quick, 10, "bounded: two packed elements, fixed offset", "iter_packed_slice_with_offset over PackedBinaryField4x2b", |s| kiter::<PackedBinaryField4x2b>(s, 4);
    iter_4x8b_5, quick, 10, "bounded: two packed elements, fixed offset", "iter_packed_slice_with_offset over PackedBinaryField4x8b", |s| kiter::<PackedBinaryField4x8b>(s, 5);
    iter_2x64b_1, quick, 10, "bounded: two packed elements, fixed offset", "iter_packed_slice_with_offset over PackedBinaryField2x64b", |s| kiter::<PackedBinaryField2x64b>(s, 1);
    trans_4x8b_4_2, quick, 14, "bounded: fixed buffer length and block size", "square_transpose over PackedBinaryField4x8b", |s| ktrans::<PackedBinaryField4x8b, 4>(s, 2);
    trans_4x8b_4_1, quick, 14, "bounded: fixed buffer length and block size", "square_transpose over PackedBinaryField4x8b", |s| ktrans::<PackedBinaryField4x8b, 4>(s, 1);
    trans_4x8b_4_3, quick, 14, "bounded: fixed buffer length and block size", "square_transpose over PackedBinaryField4x8b", |s| ktrans::<PackedBinaryField4x8b, 4>(s, 3);
    trans_8x1b_8_3, quick, 14, "bounded: fixed buffer length and block size", "square_transpose over PackedBinaryField8x1b", |s| ktrans::<PackedBinaryField8x1b, 8>(s, 3);
    trans_2x8b_4_1, quick, 14, "bounded: fixed buffer length and block size", "square_transpose over PackedBinaryField2x8b", |s| ktrans::<PackedBinaryField2x8b, 4>(s, 1);
    trans_2x64b_2_1, quick, 14, "bounded: fixed buffer length and block size", "square_transpose over PackedBinaryField2x64b", |s| ktrans::<PackedBinaryField2x64b, 2>(s, 1);
}
