//! C23: utility containers and arithmetic helpers.
use crate::rt::*;
use crate::{ensures, obligations};
use binius_utils::checked_arithmetics::*;
use binius_utils::graph::connected_components;
use binius_utils::random_access_sequence::*;
use binius_utils::sorting::{is_sorted_ascending, stable_sort, unsort};
use binius_utils::sparse_index::SparseIndex;
use binius_utils::strided_array::StridedArray2DViewMut;

fn logs(s: &mut impl Src) -> R {
    let n = s.u64() as usize;
    let m = min_bits(n);
    ensures!(m <= 64 && (m == 64 || n >> m == 0) && (m == 0 || n >> (m - 1) & 1 == 1), "min_bits is the position of the highest set bit", "n {n}");
    let l = log2_ceil_usize(n);
    ensures!(l <= 64 && (l == 64 || 1usize << l >= n) && (l == 0 || 1usize << (l - 1) < n), "log2_ceil is the least exponent reaching n", "n {n}");
    match strict_log_2(n) {
        Some(k) => ensures!(k < 64 && 1usize << k == n, "strict_log_2 is the exponent", "n {n}"),
        None => ensures!(n == 0 || n & (n - 1) != 0, "strict_log_2 fails only when n is not a power of two", "n {n}"),
    }
    if n != 0 && n & (n - 1) == 0 {
        ensures!(1usize << log2_strict_usize(n) == n && 1usize << checked_log_2(n) == n, "strict logarithms are the exponent", "n {n}");
    }
    Ok(())
}
fn div(s: &mut impl Src) -> R {
    let b = 1 + s.below(255);
    let q = s.below(256);
    ensures!(checked_int_div(b * q, b) == q, "checked_int_div is the quotient");
    Ok(())
}
fn strided<const H: usize, const W: usize, const N: usize, const STRIDE: usize>(s: &mut impl Src) -> R {
    let mut data = [0u8; N];
    for x in data.iter_mut() {
        *x = s.u8();
    }
    let orig = data;
    let k = s.below(W.div_ceil(STRIDE));
    let i = s.below(H);
    let v = s.u8();
    let width = STRIDE.min(W - k * STRIDE);
    let j = s.below(STRIDE);
    if j >= width {
        return Err(Stop::Vacuous);
    }
    {
        let view = StridedArray2DViewMut::without_stride(&mut data, H, W).unwrap();
        let mut n = 0;
        for (p, mut st) in view.into_strides(STRIDE).enumerate() {
            n += 1;
            if p == k {
                ensures!(st.width() == width && st.height() == H, "a stride has the documented shape");
                ensures!(st[(i, j)] == orig[i * W + k * STRIDE + j], "a stride shows its columns");
                st[(i, j)] = v;
            }
        }
        ensures!(n == W.div_ceil(STRIDE), "the strides cover all columns");
    }
    for t in 0..N {
        let e = if t == i * W + k * STRIDE + j { v } else { orig[t] };
        ensures!(data[t] == e, "writing through a stride changes exactly that element");
    }
    Ok(())
}
fn column<const H: usize, const W: usize, const N: usize>(s: &mut impl Src) -> R {
    let mut data = [0u8; N];
    for x in data.iter_mut() {
        *x = s.u8();
    }
    let orig = data;
    let c = s.below(W);
    let add = s.u8();
    {
        let mut view = StridedArray2DViewMut::without_stride(&mut data, H, W).unwrap();
        let mut n = 0;
        for x in view.iter_column_mut(c) {
            ensures!(*x == orig[n * W + c], "a column iterates its elements in order");
            *x = x.wrapping_add(add);
            n += 1;
        }
        ensures!(n == H, "a column has the view's height");
    }
    for t in 0..N {
        ensures!(data[t] == if t % W == c { orig[t].wrapping_add(add) } else { orig[t] }, "writing a column changes exactly that column");
    }
    Ok(())
}
fn subrange<const N: usize>(s: &mut impl Src) -> R {
    let mut data = [0u8; N];
    for x in data.iter_mut() {
        *x = s.u8();
    }
    let orig = data;
    let off = s.below(N + 1);
    let len = s.below(N + 1);
    if off + len > N {
        return Err(Stop::Vacuous);
    }
    let i = s.below(N);
    let v = s.u8();
    {
        let sl: &[u8] = &data;
        let r = SequenceSubrange::new(&sl, off, len);
        ensures!(r.len() == len && r.is_empty() == (len == 0), "a subrange has its length");
        if i < len {
            ensures!(r.get(i) == orig[off + i], "a subrange shows its elements");
        }
    }
    {
        let mut sl: &mut [u8] = &mut data;
        let mut r = SequenceSubrangeMut::new(&mut sl, off, len);
        ensures!(r.len() == len, "a subrange has its length");
        if i < len {
            ensures!(r.get(i) == orig[off + i], "a subrange shows its elements");
            r.set(i, v);
            ensures!(r.get(i) == v, "a written element is read back");
        }
    }
    for t in 0..N {
        ensures!(data[t] == if i < len && t == off + i { v } else { orig[t] }, "writing through a subrange changes exactly that element");
    }
    Ok(())
}
fn sorted<const N: usize>(s: &mut impl Src) -> R {
    let mut keys = [0usize; N];
    for k in keys.iter_mut() {
        *k = s.u8() as usize;
    }
    let desc = s.bool();
    let objs: Vec<(usize, usize)> = keys.iter().copied().enumerate().collect();
    let (ix, so) = stable_sort(objs, |o| o.1, desc);
    ensures!(ix.len() == N && so.len() == N, "sorting keeps all objects");
    for t in 0..N {
        ensures!(ix[t] < N && so[t] == (ix[t], keys[ix[t]]), "sorted objects are those at the reported indices");
    }
    for t in 1..N {
        let (a, b) = (so[t - 1], so[t]);
        let before = if desc { a.1 > b.1 } else { a.1 < b.1 };
        ensures!(before || (a.1 == b.1 && a.0 < b.0), "sorting is by key and stable");
    }
    let back = unsort(ix, so);
    for t in 0..N {
        ensures!(back[t] == (t, keys[t]), "unsorting restores the original order");
    }
    Ok(())
}
fn components<const N: usize, const E: usize>(s: &mut impl Src) -> R {
    let mut edges = [[0usize; 2]; E];
    for e in edges.iter_mut() {
        *e = [s.below(N), s.below(N)];
    }
    let got = connected_components(&edges[..]);
    let max = edges.iter().flatten().copied().max().unwrap_or(0);
    ensures!(got.len() == max + 1, "there is one label per node");
    // reference: propagate minima to a fixed point
    let mut lab = [0usize; N];
    for (i, l) in lab.iter_mut().enumerate() {
        *l = i;
    }
    for _ in 0..N {
        for e in &edges {
            let m = lab[e[0]].min(lab[e[1]]);
            lab[e[0]] = m;
            lab[e[1]] = m;
        }
    }
    for t in 0..=max {
        ensures!(got[t] == lab[t], "nodes are labelled with the least node of their component", "edges {edges:?} node {t}");
    }
    Ok(())
}
fn sparse<const OPS: usize, const IDS: usize>(s: &mut impl Src) -> R {
    let mut ix = SparseIndex::<u8>::new();
    let mut model = [None::<u8>; IDS];
    for _ in 0..OPS {
        let id = s.below(IDS);
        let v = s.u8();
        match s.below(4) {
            0 => {
                ix.set(id, v);
                model[id] = Some(v);
            }
            1 => {
                let r = *ix.entry(id).or_insert(v);
                let e = *model[id].get_or_insert(v);
                ensures!(r == e, "or_insert returns the value present or the default");
            }
            2 => match (ix.get_mut(id), &mut model[id]) {
                (Some(a), Some(b)) => {
                    ensures!(a == b, "get_mut gives the stored value");
                    *a = v;
                    *b = v;
                }
                (a, b) => ensures!(a.is_none() && b.is_none(), "get_mut gives a value exactly for keys present"),
            },
            _ => {
                let r = *ix.entry(id).or_insert_with(|| v);
                let e = *model[id].get_or_insert(v);
                ensures!(r == e, "or_insert_with returns the value present or the default");
            }
        }
    }
    let mut n = 0;
    for id in 0..IDS {
        ensures!(ix.get(id).copied() == model[id] && ix.contains_key(id) == model[id].is_some(), "the index holds exactly the values set");
        n += model[id].is_some() as usize;
    }
    ensures!(ix.len() == n && ix.is_empty() == (n == 0) && ix.get(IDS).is_none(), "the index counts its values");
    Ok(())
}

#[cfg(not(kani))]
pub use nat::register;
#[cfg(not(kani))]
mod nat {
    use super::*;
    use binius_maybe_rayon::prelude::*;
    use binius_utils::array_2d::Array2D;
    use binius_utils::iter::IterExtensions;
    use binius_utils::mem::*;

    fn failures(s: &mut NSrc) -> R {
        let (a, b) = (s.below(1 << 20), s.below(40));
        let r = catches(|| checked_int_div(a, b));
        ensures!(r == if b != 0 && a % b == 0 { Some(a / b) } else { None }, "checked_int_div reports inexact division", "{a} / {b}");
        let n = if s.bool() { 1usize << s.below(64) } else { s.u64() as usize >> s.below(64) };
        ensures!(catches(|| checked_log_2(n)).is_some() == n.is_power_of_two() && catches(|| log2_strict_usize(n)).is_some() == n.is_power_of_two(), "strict logarithms report values that are not powers of two", "{n}");
        let v: Vec<u8> = (0..s.below(6)).map(|_| s.below(4) as u8).collect();
        ensures!(is_sorted_ascending(v.iter()) == v.windows(2).all(|w| w[0] <= w[1]), "is_sorted_ascending", "{v:?}");
        Ok(())
    }
    fn views(s: &mut NSrc) -> R {
        let (h, w) = (1 + s.below(6), 1 + s.below(9));
        let mut data: Vec<u64> = (0..h * w).map(|_| s.u64()).collect();
        let orig = data.clone();
        let stride = 1 + s.below(w + 2);
        {
            let par = s.bool();
            let view = StridedArray2DViewMut::without_stride(&mut data, h, w).unwrap();
            let mut st: Vec<_> = if par { view.into_par_strides(stride).collect() } else { view.into_strides(stride).collect() };
            ensures!(st.len() == w.div_ceil(stride), "the strides cover all columns", "{h}x{w} stride {stride}");
            let mut col = 0;
            for (k, x) in st.iter_mut().enumerate() {
                ensures!(x.height() == h && x.width() == stride.min(w - k * stride), "a stride has the documented shape", "{h}x{w} stride {stride} part {k}");
                for i in 0..h {
                    for j in 0..x.width() {
                        ensures!(x[(i, j)] == orig[i * w + col + j] && unsafe { *x.get_unchecked_ref(i, j) == orig[i * w + col + j] }, "a stride shows its columns");
                        x[(i, j)] ^= 1;
                        unsafe { *x.get_unchecked_mut(i, j) ^= 2 };
                    }
                }
                let (wd, hd) = (x.width(), x.height());
                ensures!(catches(std::panic::AssertUnwindSafe(|| x[(hd, 0)])).is_none() && catches(std::panic::AssertUnwindSafe(|| x[(0, wd)])).is_none(), "indices out of range fail");
                ensures!(catches(std::panic::AssertUnwindSafe(|| x.iter_column_mut(wd).count())).is_none(), "columns out of range fail");
                col += wd;
            }
        }
        ensures!(data.iter().zip(&orig).all(|(a, b)| *a == b ^ 3), "the strides are disjoint and cover the data");
        ensures!(StridedArray2DViewMut::without_stride(&mut data, h + 1, w).is_err() && StridedArray2DViewMut::without_stride(&mut data, h, w + 1).is_err(), "dimensions have to match the data");
        // 2D arrays
        let mut a = Array2D::<u64>::new(h, w);
        let z = Array2D::<u64>::zeroes(h, w);
        ensures!(a.rows() == h && a.cols() == w && z.rows() == h && z.cols() == w && z.iter_rows().flatten().all(|&x| x == 0), "a new array has its shape");
        for i in 0..h {
            for j in 0..w {
                if s.bool() {
                    a[(i, j)] = orig[i * w + j];
                } else {
                    unsafe { *a.get_unchecked_mut(i, j) = orig[i * w + j] };
                }
            }
        }
        for i in 0..h {
            ensures!(a.get_row(i) == &orig[i * w..(i + 1) * w] && a.get_row_mut(i) == &orig[i * w..(i + 1) * w], "rows hold their elements");
            for j in 0..w {
                ensures!(a[(i, j)] == orig[i * w + j] && unsafe { *a.get_unchecked(i, j) } == orig[i * w + j], "elements are where they were written");
            }
        }
        ensures!(a.iter_rows().map(|r| r.to_vec()).collect::<Vec<_>>() == orig.chunks(w).map(|r| r.to_vec()).collect::<Vec<_>>(), "the rows are iterated in order");
        ensures!(catches(|| a.get_row(h).len()).is_none() && catches(|| a[(h, 0)]).is_none() && catches(|| a[(0, w)]).is_none(), "indices out of range fail", "{h}x{w}");
        ensures!(catches(std::panic::AssertUnwindSafe(|| { a[(0, w)] = 1; })).is_none(), "indices out of range fail", "{h}x{w} mutable");
        let small = {
            let mut b = Array2D::<u64>::new(h, w);
            for i in 0..h * w {
                b[(i / w, i % w)] = orig[i] >> 8;
            }
            b
        };
        let sums: Vec<u64> = (0..w).map(|j| (0..h).map(|i| orig[i * w + j] >> 8).sum()).collect();
        ensures!(small.sum_rows() == sums, "sum_rows adds up the rows");
        let r = a.reshape(w, h).unwrap();
        ensures!(r.rows() == w && r.cols() == h && (0..h * w).all(|i| r[(i / h, i % h)] == orig[i]), "reshaping keeps the elements in order");
        ensures!(a.reshape(h + 1, w).is_none() && a.reshape_mut(h, w + 1).is_none(), "a shape of another size is refused");
        {
            let mut r = a.reshape_mut(w, h).unwrap();
            r[(w - 1, h - 1)] = 7;
        }
        ensures!(a[(h - 1, w - 1)] == 7, "a reshaped view writes through");
        let e = Array2D::<u64>::new(h, 0);
        ensures!(e.rows() == h && e.cols() == 0 && e.iter_rows().count() == h, "arrays without columns have their rows");
        // sequences
        let v: Vec<u64> = orig.clone();
        let sl: &[u64] = &v;
        let (off, len) = (s.below(v.len() + 2), s.below(v.len() + 2));
        let r = catches(|| SequenceSubrange::new(&sl, off, len).len());
        ensures!(r == if off + len <= v.len() { Some(len) } else { None }, "subranges beyond the sequence fail");
        if off + len <= v.len() {
            let r = SequenceSubrange::new(&sl, off, len);
            ensures!((0..len).all(|i| r.get(i) == v[off + i]) && catches(|| r.get(len)).is_none(), "a subrange shows exactly its elements");
        }
        // views of memory
        let mut b = orig.clone();
        let u = slice_uninit_mut(&mut b);
        ensures!(u.len() == orig.len(), "the uninitialised view has the same length");
        u[0].write(5);
        let bb = unsafe { slice_assume_init_mut(u) };
        ensures!(bb[0] == 5 && bb[1..] == orig[1..], "the initialised view has the same elements");
        Ok(())
    }
    fn sparse_more(s: &mut NSrc) -> R {
        let n = s.below(12);
        let items: Vec<(usize, u32)> = (0..n).map(|_| (s.below(20), s.u32())).collect();
        let mut model = std::collections::BTreeMap::new();
        for &(k, v) in &items {
            model.insert(k, v);
        }
        let mut ix: SparseIndex<u32> = if s.bool() { items.iter().copied().collect() } else {
            let mut x = SparseIndex::with_capacity(s.below(30));
            for &(k, v) in &items {
                x.set(k, v);
            }
            x
        };
        ensures!(ix.iter().map(|(k, v)| (k, *v)).collect::<Vec<_>>() == model.iter().map(|(k, v)| (*k, *v)).collect::<Vec<_>>(), "iteration is over the present keys in order");
        ensures!(ix.iter().rev().map(|(k, _)| k).collect::<Vec<_>>() == model.keys().rev().copied().collect::<Vec<_>>() && ix.keys().collect::<Vec<_>>() == model.keys().copied().collect::<Vec<_>>(), "keys are those present");
        ensures!(ix.values().copied().collect::<Vec<_>>() == model.values().copied().collect::<Vec<_>>(), "values are those present");
        for (_, v) in ix.iter_mut() {
            *v = v.wrapping_add(1);
        }
        for v in ix.values_mut() {
            *v = v.wrapping_add(1);
        }
        let k = s.below(40);
        ensures!(ix.get(k).copied() == model.get(&k).map(|v| v.wrapping_add(2)), "mutable iteration reaches every value");
        ensures!(catches(|| ix[k]).is_some() == model.contains_key(&k), "indexing an absent key fails");
        ensures!(ix.len() == model.len() && ix.is_empty() == model.is_empty(), "the index counts its values");
        ensures!(ix.into_iter().collect::<Vec<_>>() == model.iter().map(|(k, v)| (*k, v.wrapping_add(2))).collect::<Vec<_>>(), "consuming iteration is over the present keys in order");
        Ok(())
    }
    fn graph(s: &mut NSrc) -> R {
        let n = 1 + s.below(14);
        let sets: Vec<Vec<usize>> = (0..s.below(7)).map(|_| (0..s.below(4)).map(|_| s.below(n)).collect()).collect();
        let got = connected_components(&sets);
        if sets.is_empty() {
            ensures!(got.is_empty(), "no sets, no labels");
            return Ok(());
        }
        let max = sets.iter().flatten().copied().max();
        let mut lab: Vec<usize> = (0..n).collect();
        for _ in 0..n {
            for e in &sets {
                if let Some(m) = e.iter().map(|&x| lab[x]).min() {
                    for &x in e {
                        lab[x] = m;
                    }
                }
            }
        }
        if let Some(max) = max {
            ensures!(got == lab[..=max], "nodes are labelled with the least node of their component", "{sets:?}");
        }
        Ok(())
    }
    fn skippable(s: &mut NSrc) -> R {
        let v: Vec<u32> = (0..s.below(10)).map(|_| s.u32()).collect();
        let calls = std::cell::Cell::new(0);
        let mut a = v.iter().map_skippable(|x| { calls.set(calls.get() + 1); *x ^ 5 });
        let mut b = v.iter().map(|x| *x ^ 5);
        let mut used = 0;
        for _ in 0..s.below(5) {
            ensures!(a.size_hint() == b.size_hint() && a.len() == b.len(), "the length of a skippable map");
            let (x, y) = if s.bool() { let n = s.below(4); (a.nth(n), b.nth(n)) } else { (a.next(), b.next()) };
            used += x.is_some() as usize;
            ensures!(x == y, "a skippable map yields the mapped elements");
            ensures!(calls.get() == used, "skipped elements are not computed");
        }
        let f = s.u32();
        ensures!(a.fold(f, |x, y| x.rotate_left(3) ^ y) == b.fold(f, |x, y| x.rotate_left(3) ^ y), "folding a skippable map");
        Ok(())
    }
    /// The parallel iterator façade equals sequential iteration.
    fn facade(s: &mut NSrc) -> R {
        let n = s.below(20);
        let v: Vec<u64> = (0..n).map(|_| s.below(50) as u64).collect();
        let w: Vec<u64> = (0..s.below(20)).map(|_| s.below(50) as u64).collect();
        let c = 1 + s.below(7);
        ensures!(v.par_iter().map(|x| x * 2).collect::<Vec<_>>() == v.iter().map(|x| x * 2).collect::<Vec<_>>(), "map");
        ensures!(v.par_iter().zip(w.par_iter()).map(|(a, b)| a * 51 + b).collect::<Vec<_>>() == v.iter().zip(&w).map(|(a, b)| a * 51 + b).collect::<Vec<_>>(), "zip");
        ensures!(v.par_chunks(c).map(|x| x.to_vec()).collect::<Vec<_>>() == v.chunks(c).map(|x| x.to_vec()).collect::<Vec<_>>(), "chunks of a slice");
        ensures!(v.par_chunks_exact(c).map(|x| x.to_vec()).collect::<Vec<_>>() == v.chunks_exact(c).map(|x| x.to_vec()).collect::<Vec<_>>(), "exact chunks of a slice");
        ensures!(v.clone().into_par_iter().chunks(c).collect::<Vec<_>>() == v.chunks(c).map(|x| x.to_vec()).collect::<Vec<_>>(), "chunks of an iterator", "{n} by {c}");
        ensures!(v.par_iter().enumerate().map(|(i, x)| i as u64 * 100 + x).collect::<Vec<_>>() == v.iter().enumerate().map(|(i, x)| i as u64 * 100 + x).collect::<Vec<_>>(), "enumerate");
        ensures!(v.clone().into_par_iter().step_by(c).collect::<Vec<_>>() == v.iter().copied().step_by(c).collect::<Vec<_>>(), "step_by");
        let k = s.below(25);
        ensures!(v.clone().into_par_iter().take(k).collect::<Vec<_>>() == v.iter().copied().take(k).collect::<Vec<_>>(), "take");
        ensures!(v.par_iter().copied().sum::<u64>() == v.iter().sum::<u64>() && v.par_iter().copied().reduce(|| 0, |a, b| a.max(b)) == v.iter().copied().max().unwrap_or(0), "sum and reduce");
        ensures!(v.clone().into_par_iter().fold(|| 0u64, |a, b| a + b).sum::<u64>() == v.iter().sum::<u64>(), "fold then sum");
        ensures!(v.par_iter().map(|&x| if x < 48 { Ok(x) } else { Err(()) }).collect::<Result<Vec<_>, ()>>().is_ok() == v.iter().all(|&x| x < 48), "collecting results");
        ensures!(v.clone().into_par_iter().map(|x| if x < 48 { Ok(()) } else { Err(()) }).try_for_each(|r| r).is_ok() == v.iter().all(|&x| x < 48), "try_for_each");
        ensures!(v.clone().into_par_iter().filter(|x| x % 2 == 0).count() == v.iter().filter(|x| **x % 2 == 0).count(), "filter and count");
        let (mut a, mut b) = (v.clone(), v.clone());
        a.par_chunks_mut(c).enumerate().for_each(|(i, ch)| for x in ch { *x += i as u64 });
        b.chunks_mut(c).enumerate().for_each(|(i, ch)| for x in ch { *x += i as u64 });
        ensures!(a == b, "mutable chunks");
        a.par_chunks_exact_mut(c).zip(w.par_iter()).for_each(|(ch, y)| ch[0] ^= y);
        b.chunks_exact_mut(c).zip(&w).for_each(|(ch, y)| ch[0] ^= y);
        ensures!(a == b, "zipped mutable chunks");
        let mut out = vec![];
        v.par_iter().map(|x| x + 1).collect_into_vec(&mut out);
        ensures!(out == v.iter().map(|x| x + 1).collect::<Vec<_>>(), "collect_into_vec");
        let (l, r): (Vec<u64>, Vec<u64>) = v.par_iter().map(|&x| (x, x + 1)).unzip();
        ensures!(l == v && r == out, "unzip");
        ensures!(v.par_iter().any(|&x| x == 7) == v.contains(&7) && v.par_iter().all(|&x| x != 7) == !v.contains(&7), "any and all");
        ensures!(v.clone().into_par_iter().flat_map_iter(|x| [x, x + 1]).collect::<Vec<_>>() == v.iter().flat_map(|&x| [x, x + 1]).collect::<Vec<_>>(), "flat_map_iter");
        let (x, y) = binius_maybe_rayon::join(|| v.len(), || w.len());
        ensures!((x, y) == (v.len(), w.len()), "join returns both results in order");
        Ok(())
    }
    pub fn register(r: &mut Runner) {
        r.sampled("failures", "checked_int_div, checked_log_2, log2_strict_usize, is_sorted_ascending", 20000, failures);
        r.sampled("views", "StridedArray2DViewMut, Array2D, SequenceSubrange, slice_uninit_mut", 2000, views);
        r.sampled("sparse_index", "SparseIndex", 20000, sparse_more);
        r.sampled("graph", "connected_components", 20000, graph);
        r.sampled("skippable", "IterExtensions::map_skippable", 20000, skippable);
        r.sampled("parallel_facade", "binius_maybe_rayon iterators and slices", 2000, facade);
        r.sampled("sort_10", "stable_sort, unsort", 20000, |s| sorted::<10>(s));
        super::obligations(r);
    }
}

obligations! {
    logarithms, quick, 4, "complete: all usize", "min_bits, log2_ceil_usize, strict_log_2, checked_log_2, log2_strict_usize", logs;
    exact_division, quick, 4, "bounded: quotients and divisors below 256", "checked_int_div", div;
    strided_3x5_2, quick, 16, "bounded: 3x5 view in strides of 2, all data and indices", "StridedArray2DViewMut::{without_stride,into_strides,index_mut}", strided::<3, 5, 15, 2>;
    strided_2x4_4, quick, 10, "bounded: 2x4 view in one stride, all data and indices", "StridedArray2DViewMut::{without_stride,into_strides,index_mut}", strided::<2, 4, 8, 4>;
    column_3x4, quick, 14, "bounded: 3x4 view, all data and columns", "StridedArray2DViewMut::iter_column_mut", column::<3, 4, 12>;
    subrange_6, quick, 8, "bounded: sequence of 6, all offsets, lengths, indices", "SequenceSubrange, SequenceSubrangeMut", subrange::<6>;
    stable_sort_3, quick, 8, "bounded: 3 objects, all 8-bit keys", "stable_sort, unsort", sorted::<3>;
}
