//! C05: serialization.
use crate::rt::*;
use crate::spec::*;
use binius_field::*;
use binius_utils::{DeserializeBytes, SerializationError, SerializationMode, SerializeBytes};
use bytes::Buf;

pub const MODES: [SerializationMode; 2] = [SerializationMode::Native, SerializationMode::CanonicalTower];

fn le(x: u128, n: usize, out: &mut [u8]) {
    let mut i = 0;
    while i < n {
        out[i] = (x >> (8 * i)) as u8;
        i += 1;
    }
}
fn from_le(b: &[u8], n: usize) -> u128 {
    let mut r = 0;
    let mut i = 0;
    while i < n {
        r |= (b[i] as u128) << (8 * i);
        i += 1;
    }
    r
}

/// Fixed-size little-endian codec: exact bytes, exact consumption, truncated input is an error.
fn fixed<T: SerializeBytes + DeserializeBytes + Copy + PartialEq, const N: usize>(s: &mut impl Src, v: T, want: u128, mode: SerializationMode) -> R {
    let mut buf = [0u8; 17];
    {
        let mut w = &mut buf[..];
        let before = w.len();
        ensures!(v.serialize(&mut w, mode).is_ok(), "a value serializes into a large enough buffer");
        ensures!(before - w.len() == N, "encoding has the documented length");
    }
    let mut exp = [0u8; 17];
    le(want, N, &mut exp);
    ensures!(buf == exp, "encoding is the little-endian value", "{buf:?} {exp:?}");
    let mut small = [0u8; 16];
    let room = s.below(N);
    ensures!(v.serialize(&mut small[..room], mode).is_err(), "writing to a too small buffer is an error");
    let mut r = &buf[..];
    let got = T::deserialize(&mut r, mode);
    ensures!(matches!(got, Ok(x) if x == v), "decoding the encoding gives the value back");
    ensures!(r.remaining() == 17 - N, "decoding consumes exactly the encoding");
    let cut = s.below(N);
    let mut r = &buf[..cut];
    ensures!(T::deserialize(&mut r, mode).is_err(), "truncated input is an error", "cut {cut}");
    Ok(())
}
fn mode(s: &mut impl Src) -> SerializationMode {
    MODES[s.below(2)]
}
fn uint8(s: &mut impl Src) -> R {
    let (v, m) = (s.u8(), mode(s));
    fixed::<u8, 1>(s, v, v as u128, m)
}
fn uint16(s: &mut impl Src) -> R {
    let (v, m) = (s.u16(), mode(s));
    fixed::<u16, 2>(s, v, v as u128, m)
}
fn uint32(s: &mut impl Src) -> R {
    let (v, m) = (s.u32(), mode(s));
    fixed::<u32, 4>(s, v, v as u128, m)
}
fn uint64(s: &mut impl Src) -> R {
    let (v, m) = (s.u64(), mode(s));
    fixed::<u64, 8>(s, v, v as u128, m)
}
fn uint128(s: &mut impl Src) -> R {
    let (v, m) = (s.u128(), mode(s));
    fixed::<u128, 16>(s, v, v, m)
}
fn boolean(s: &mut impl Src) -> R {
    let (v, m) = (s.bool(), mode(s));
    fixed::<bool, 1>(s, v, v as u128, m)
}
fn usizes(s: &mut impl Src) -> R {
    let (v, m) = (s.u64() as usize, mode(s));
    if v <= u32::MAX as usize {
        fixed::<usize, 4>(s, v, v as u128, m)
    } else {
        let mut b = [0u8; 16];
        ensures!(matches!(v.serialize(&mut b[..], m), Err(SerializationError::UsizeTooLarge { .. })), "a length that does not fit is an error");
        Ok(())
    }
}
/// Canonical tower fields: raw little-endian value in both modes; decoding never fails on enough bytes.
fn tower<F: Fx + SerializeBytes + DeserializeBytes + Copy + PartialEq, const N: usize>(s: &mut impl Src) -> R {
    let (v, m) = (F::of(s.word(F::NB)), mode(s));
    fixed::<F, N>(s, v, v.raw(), m)
}
/// Other representations: raw value in native mode, the canonical element in canonical mode.
fn noncanon<F: Fx + SerializeBytes + DeserializeBytes + Copy + PartialEq, C: Fx + From<F>, const N: usize>(s: &mut impl Src) -> R {
    let (v, m) = (F::of(s.word(F::NB)), mode(s));
    let want = if m == SerializationMode::Native { v.raw() } else { C::from(v).raw() };
    fixed::<F, N>(s, v, want, m)
}
/// Decoding arbitrary bytes of a scalar: total, and the result re-encodes to the same element.
fn total_scalar<F: Fx + SerializeBytes + DeserializeBytes + Copy + PartialEq, const N: usize, const LE: bool>(s: &mut impl Src) -> R {
    let m = mode(s);
    let mut b = [0u8; 16];
    let mut i = 0;
    while i < N {
        b[i] = s.u8();
        i += 1;
    }
    let n = s.below(N + 1);
    let mut r = &b[..n];
    let got = F::deserialize(&mut r, m);
    ensures!(got.is_ok() == (n == N), "decoding succeeds exactly when there are enough bytes");
    if let Ok(v) = got {
        ensures!(F::NB == 128 || v.raw() < 1u128 << F::NB, "decoded element is in range");
        if LE {
            ensures!(v.raw() == from_le(&b, N), "decoded element is the little-endian value");
        }
    }
    Ok(())
}
/// Option<u16>, (u8, u32) and Vec<u8> (up to 2 elements): tags and lengths, truncation, exact use.
fn option16(s: &mut impl Src) -> R {
    let m = mode(s);
    let v = if s.bool() { Some(s.u16()) } else { None };
    let mut b = [0u8; 4];
    let mut w = &mut b[..];
    ensures!(v.serialize(&mut w, m).is_ok(), "option serializes");
    let n = 4 - w.len();
    ensures!(n == if v.is_some() { 3 } else { 1 }, "option encoding is a tag and the value");
    let cut = s.below(5);
    let mut r = &b[..cut];
    let got = Option::<u16>::deserialize(&mut r, m);
    ensures!(got.is_ok() == (cut >= n), "truncated option is an error");
    if let Ok(g) = got {
        ensures!(g == v, "option round trip");
        ensures!(r.len() == cut - n, "exact consumption");
    }
    Ok(())
}
fn pair(s: &mut impl Src) -> R {
    let m = mode(s);
    let v = (s.u8(), s.u32());
    let mut b = [0u8; 6];
    ensures!(v.serialize(&mut b[..], m).is_ok(), "pair serializes");
    let cut = s.below(7);
    let mut r = &b[..cut];
    let got = <(u8, u32)>::deserialize(&mut r, m);
    ensures!(got.is_ok() == (cut >= 5), "truncated pair is an error");
    if let Ok(g) = got {
        ensures!(g == v, "pair round trip");
        ensures!(r.len() == cut - 5, "exact consumption");
    }
    Ok(())
}
fn bytes_vec(s: &mut impl Src) -> R {
    let m = mode(s);
    let n = s.below(3);
    let v: Vec<u8> = (0..n).map(|_| s.u8()).collect();
    let mut b = [0u8; 8];
    let mut w = &mut b[..];
    ensures!(v.serialize(&mut w, m).is_ok(), "vector serializes");
    ensures!(8 - w.len() == 4 + n, "vector encoding is its length and elements");
    ensures!(b[0] as usize == n && b[1] == 0 && b[2] == 0 && b[3] == 0, "length prefix is little-endian");
    let cut = s.below(8);
    let mut r = &b[..cut];
    let got = Vec::<u8>::deserialize(&mut r, m);
    ensures!(got.is_ok() == (cut >= 4 + n), "truncated vector is an error");
    if let Ok(g) = got {
        ensures!(g == v, "vector round trip");
        ensures!(r.len() == cut - 4 - n, "exact consumption");
    }
    Ok(())
}
fn any_vec(s: &mut impl Src) -> R {
    let m = mode(s);
    let b: [u8; 6] = std::array::from_fn(|_| s.u8());
    let n = s.below(7);
    let mut r = &b[..n];
    let got = Vec::<u8>::deserialize(&mut r, m);
    let len = u32::from_le_bytes([b[0], b[1], b[2], b[3]]) as usize;
    ensures!(got.is_ok() == (n >= 4 && n - 4 >= len), "a byte string decodes exactly when its length prefix is covered");
    if let Ok(g) = got {
        ensures!(g.len() == len, "decoded length");
    }
    Ok(())
}

#[cfg(not(kani))]
pub use nat::*;
#[cfg(not(kani))]
mod nat {
    use super::*;
    use binius_core::constraint_system::channel::*;
    use binius_core::constraint_system::exp::Exp;
    use binius_core::constraint_system::*;
    use binius_core::oracle::*;
    use binius_core::polynomial::MultivariatePoly;
    use binius_core::transparent::*;
    use binius_fast_compute::arith_circuit::ArithCircuitPoly;
    use binius_field::as_packed_field::PackedType;
    use binius_field::arch::OptimalUnderlier;
    use binius_math::*;
    type B128 = BinaryField128b;

    /// Type-erased codec of one type: generate, encode, decode, compare.
    pub struct Codec {
        /// encoding of a generated value, in the given mode
        enc: fn(&mut NSrc, SerializationMode) -> Result<Vec<u8>, SerializationError>,
        /// decode; returns (bytes consumed, encoding of the decoded value in the same mode)
        dec: fn(&[u8], SerializationMode) -> Result<(usize, Vec<u8>), SerializationError>,
        /// decode through a non-contiguous buffer
        dec2: fn(&[u8], usize, SerializationMode) -> Result<(usize, Vec<u8>), SerializationError>,
        /// generates, encodes, decodes and compares
        same: fn(&mut NSrc, SerializationMode) -> bool,
    }
    trait Gen: Sized + SerializeBytes + DeserializeBytes {
        fn gen_(s: &mut NSrc) -> Self;
        fn same(&self, o: &Self) -> bool;
    }
    fn enc<T: SerializeBytes>(v: &T, m: SerializationMode) -> Result<Vec<u8>, SerializationError> {
        let mut b = vec![];
        v.serialize(&mut b, m)?;
        Ok(b)
    }
    fn dec<T: Gen>(b: &[u8], m: SerializationMode) -> Result<(usize, Vec<u8>), SerializationError> {
        let mut r = b;
        let v = T::deserialize(&mut r, m)?;
        Ok((b.len() - r.len(), enc(&v, m)?))
    }
    fn dec2<T: Gen>(b: &[u8], at: usize, m: SerializationMode) -> Result<(usize, Vec<u8>), SerializationError> {
        let mut r = (&b[..at]).chain(&b[at..]);
        let v = T::deserialize(&mut r, m)?;
        Ok((b.len() - r.remaining(), enc(&v, m)?))
    }
    fn codec<T: Gen>() -> Codec {
        Codec {
            enc: |s, m| enc(&T::gen_(s), m),
            dec: dec::<T>,
            dec2: dec2::<T>,
            same: |s, m| {
                let v = T::gen_(s);
                let b = enc(&v, m).expect("generated value serializes");
                let mut r = &b[..];
                match T::deserialize(&mut r, m) {
                    Ok(w) => r.is_empty() && v.same(&w),
                    Err(_) => false,
                }
            },
        }
    }
    pub fn round_trip(c: &Codec, s: &mut NSrc) -> R {
        let m = mode(s);
        let ok = (c.same)(s, m);
        ensures!(ok, "decoding the encoding gives an equal value and consumes it", "mode {m:?}");
        let Ok(b) = (c.enc)(s, m) else { return Err(Stop::Violated { obligation: "a value serializes".into(), detail: String::new() }) };
        let mut ext = b.clone();
        for _ in 0..s.below(5) {
            ext.push(s.u8());
        }
        let (used, b2) = match (c.dec)(&ext, m) {
            Ok(x) => x,
            Err(e) => return Err(Stop::Violated { obligation: "the encoding decodes".into(), detail: format!("{e}") }),
        };
        ensures!(used == b.len(), "decoding consumes exactly the bytes written", "{used} of {}", b.len());
        ensures!(b2 == b, "re-encoding gives the same bytes");
        let at = s.below(ext.len() + 1);
        ensures!(matches!((c.dec2)(&ext, at, m), Ok((u, x)) if u == used && x == b), "decoding does not depend on how the buffer is split", "split {at}");
        // every strict prefix is an error (all, or 40 of them for long encodings)
        let step = (b.len() / 40).max(1);
        let mut k = s.below(step);
        while k < b.len() {
            ensures!((c.dec)(&b[..k], m).is_err(), "truncated input is an error", "{k} of {} bytes", b.len());
            k += step;
        }
        Ok(())
    }
    /// Decoding damaged encodings and arbitrary bytes is total, and what decodes is a stable value.
    pub fn totality(c: &Codec, s: &mut NSrc) -> R {
        let m = mode(s);
        let mut b = if s.below(8) == 0 { (0..s.below(64)).map(|_| s.u8()).collect() } else { (c.enc)(s, m).unwrap_or_default() };
        for _ in 0..s.range(1, 3) {
            if b.is_empty() {
                break;
            }
            let i = s.below(b.len());
            match s.below(6) {
                0 => b[i] = s.u8(),
                1 => b[i] ^= 1 << s.below(8),
                2 => {
                    b.remove(i);
                }
                3 => b.insert(i, s.u8()),
                4 => b[i] = b[i].wrapping_add(1),
                _ => b.truncate(i),
            }
        }
        if let Ok((used, b1)) = (c.dec)(&b, m) {
            ensures!(used <= b.len(), "consumes no more than the input");
            match (c.dec)(&b1, m) {
                Ok((u2, b2)) => ensures!(u2 == b1.len() && b2 == b1, "what was decoded round-trips"),
                Err(_) => return Err(Stop::Violated { obligation: "what was decoded round-trips".into(), detail: String::new() }),
            }
        }
        Ok(())
    }
    /// Equal encodings only for equal values.
    fn injective<T: Gen>(s: &mut NSrc) -> R {
        let m = mode(s);
        let (a, b) = (T::gen_(s), T::gen_(s));
        let (ea, eb) = (enc(&a, m), enc(&b, m));
        if let (Ok(ea), Ok(eb)) = (ea, eb) {
            ensures!(a.same(&b) == (ea == eb), "distinct values have distinct encodings");
        }
        Ok(())
    }

    // ---- generators ----
    macro_rules! gen_eq { ($($t:ty: $g:expr;)*) => { $(impl Gen for $t {
        fn gen_(s: &mut NSrc) -> Self { let g: fn(&mut NSrc) -> Self = $g; g(s) }
        fn same(&self, o: &Self) -> bool { self == o }
    })* } }
    macro_rules! gen_dbg { ($($t:ty: $g:expr;)*) => { $(impl Gen for $t {
        fn gen_(s: &mut NSrc) -> Self { let g: fn(&mut NSrc) -> Self = $g; g(s) }
        fn same(&self, o: &Self) -> bool { format!("{self:?}") == format!("{o:?}") }
    })* } }
    pub fn f128(s: &mut NSrc) -> B128 {
        B128::from(s.u128())
    }
    fn small(s: &mut NSrc) -> usize {
        match s.below(3) {
            0 => s.below(4),
            1 => s.below(300),
            _ => s.u32() as usize,
        }
    }
    fn oid(s: &mut NSrc) -> OracleId {
        OracleId::from_index(small(s))
    }
    fn oids(s: &mut NSrc) -> Vec<OracleId> {
        (0..s.below(4)).map(|_| oid(s)).collect()
    }
    fn string(s: &mut NSrc) -> String {
        (0..s.below(5)).map(|_| ['a', 'Z', '0', 'é', '∑', '😀', '\0', ' '][s.below(8)]).collect()
    }
    pub fn circuit(s: &mut NSrc) -> ArithCircuit<B128> {
        let mut c = if s.bool() { ArithCircuit::var(s.below(4)) } else { ArithCircuit::constant(f128(s)) };
        for _ in 0..s.below(5) {
            let d = if s.bool() { ArithCircuit::var(s.below(4)) } else { ArithCircuit::constant(f128(s)) };
            c = match s.below(4) {
                0 => c + d,
                1 => d * c,
                2 => c.pow(s.below(6) as u64),
                _ => c * d,
            };
        }
        c
    }
    fn ooc(s: &mut NSrc) -> OracleOrConst<B128> {
        if s.bool() { OracleOrConst::Oracle(oid(s)) } else { OracleOrConst::Const { base: f128(s), tower_level: s.below(8) } }
    }
    fn dir(s: &mut NSrc) -> FlushDirection {
        if s.bool() { FlushDirection::Push } else { FlushDirection::Pull }
    }
    fn shift(s: &mut NSrc) -> ShiftVariant {
        [ShiftVariant::CircularLeft, ShiftVariant::LogicalLeft, ShiftVariant::LogicalRight][s.below(3)]
    }
    fn mle_poly<F: TowerField>(s: &mut NSrc) -> Box<dyn MultivariatePoly<B128>>
    where
        B128: ExtensionField<F>,
        OptimalUnderlier: binius_field::as_packed_field::PackScalar<F>,
        PackedType<OptimalUnderlier, B128>: RepackedExtension<PackedType<OptimalUnderlier, F>>,
        F: Fx,
    {
        type U = OptimalUnderlier;
        let n = s.below(5);
        let v: Vec<F> = (0..1 << n).map(|_| F::of(s.word(F::NB))).collect();
        let packed: Vec<PackedType<U, F>> = binius_field::packed::pack_slice(&v);
        Box::new(MultilinearExtensionTransparent::<PackedType<U, F>, PackedType<U, B128>, _>::from_values_and_mu(packed, n).expect("valid"))
    }
    pub fn transparent(s: &mut NSrc) -> Box<dyn MultivariatePoly<B128>> {
        let n = s.below(6);
        match s.below(11) {
            0 => Box::new(constant::Constant::<B128>::new(n, f128(s))),
            1 => Box::new(constant::Constant::<B128>::new(n, BinaryField1b::from(s.bool()))),
            2 => Box::new(powers::Powers::new(n, f128(s))),
            3 => Box::new(select_row::SelectRow::new(n, s.below(1 << n)).unwrap()),
            4 => Box::new(step_down::StepDown::new(n, s.below((1 << n) + 1)).unwrap()),
            5 => Box::new(step_up::StepUp::new(n, s.below((1 << n) + 1)).unwrap()),
            6 => {
                let k = s.below(8);
                Box::new(tower_basis::TowerBasis::<B128>::new(k, s.below(8 - k)).unwrap())
            }
            7 => mle_poly::<BinaryField1b>(s),
            8 => mle_poly::<BinaryField8b>(s),
            9 => mle_poly::<BinaryField32b>(s),
            _ => mle_poly::<B128>(s),
        }
    }
    /// Same polynomial: variables, degree, level and value at a point off the hypercube and on it.
    fn same_poly(a: &dyn MultivariatePoly<B128>, b: &dyn MultivariatePoly<B128>) -> bool {
        if a.n_vars() != b.n_vars() || a.degree() != b.degree() || a.binary_tower_level() != b.binary_tower_level() {
            return false;
        }
        let n = a.n_vars();
        let mut x = 0x1234567890abcdefu128;
        for k in 0..5 {
            let q: Vec<B128> = (0..n)
                .map(|i| {
                    x = x.wrapping_mul(0x9E3779B97F4A7C15F39CC0605CEDC835).rotate_left(31) ^ i as u128;
                    if k < 3 { B128::from(x >> 127) } else { B128::from(x) }
                })
                .collect();
            match (a.evaluate(&q), b.evaluate(&q)) {
                (Ok(u), Ok(v)) if u == v => {}
                _ => return false,
            }
        }
        true
    }
    impl Gen for Box<dyn MultivariatePoly<B128>> {
        fn gen_(s: &mut NSrc) -> Self {
            transparent(s)
        }
        fn same(&self, o: &Self) -> bool {
            same_poly(&**self, &**o)
        }
    }
    /// A random symbolic oracle set using every kind of oracle.
    pub fn sym_set(s: &mut NSrc) -> SymbolicMultilinearOracleSet<B128> {
        let mut o = SymbolicMultilinearOracleSet::<B128>::new();
        let first = o.add_oracle(0, s.below(4), "base").committed(s.below(8));
        let mut ids = vec![first];
        for _ in 0..s.below(6) {
            let id = ids[s.below(ids.len())];
            let id2 = ids[s.below(ids.len())];
            let name = string(s);
            let b = o.add_oracle(s.below(3), s.below(5), name);
            let new = match s.below(11) {
                0 => Ok(b.committed(s.below(8))),
                1 => {
                    let n = s.below(5);
                    b.transparent(powers::Powers::new(n, f128(s)))
                }
                2 => b.structured(circuit(s)),
                3 => b.repeating(id),
                4 => b.projected(id, vec![f128(s); s.below(3)], s.below(4)),
                5 => b.projected_last_vars(id, vec![f128(s); s.below(3)]),
                6 => {
                    let bits = s.range(1, 5);
                    b.shifted(id, s.range(1, (1 << bits) - 1), bits, shift(s))
                }
                7 => b.packed(id, s.below(3)),
                8 => b.linear_combination_with_offset(f128(s), [(id, f128(s)), (id2, f128(s))]),
                9 => b.composite_mle([id, id2], circuit(s)),
                _ => b.zero_padded(id, s.below(4), s.below(4), s.below(4)),
            };
            if let Ok(n) = new {
                ids.push(n);
            }
        }
        o
    }
    fn constraint(s: &mut NSrc) -> Constraint<B128> {
        Constraint { name: string(s), composition: circuit(s), predicate: if s.bool() { ConstraintPredicate::Zero } else { ConstraintPredicate::Sum(f128(s)) } }
    }
    fn constraint_set(s: &mut NSrc) -> ConstraintSet<B128> {
        ConstraintSet { table_id: s.below(4), log_values_per_row: s.below(6), oracle_ids: oids(s), constraints: (0..s.below(3)).map(|_| constraint(s)).collect() }
    }
    fn flush(s: &mut NSrc) -> Flush<B128> {
        Flush { table_id: s.below(4), log_values_per_row: s.below(6), oracles: (0..s.below(4)).map(|_| ooc(s)).collect(), channel_id: small(s), direction: dir(s), selectors: oids(s), multiplicity: s.u64() }
    }
    fn exp(s: &mut NSrc) -> Exp<B128> {
        Exp { bits_ids: oids(s), base: ooc(s), exp_result_id: oid(s) }
    }
    fn spec(s: &mut NSrc) -> TableSizeSpec {
        match s.below(3) {
            0 => TableSizeSpec::Arbitrary,
            1 => TableSizeSpec::PowerOfTwo,
            _ => TableSizeSpec::Fixed { log_size: small(s) },
        }
    }
    pub fn system(s: &mut NSrc) -> ConstraintSystem<B128> {
        ConstraintSystem {
            oracles: sym_set(s),
            table_constraints: (0..s.below(3)).map(|_| constraint_set(s)).collect(),
            non_zero_oracle_ids: oids(s),
            flushes: (0..s.below(3)).map(|_| flush(s)).collect(),
            exponents: (0..s.below(3)).map(|_| exp(s)).collect(),
            channel_count: small(s),
            table_size_specs: (0..s.below(4)).map(|_| spec(s)).collect(),
        }
    }
    gen_eq! {
        Vec<u32>: |s| (0..s.below(5)).map(|_| s.u32()).collect();
        Vec<Vec<u16>>: |s| (0..s.below(4)).map(|_| (0..s.below(4)).map(|_| s.u16()).collect()).collect();
        Option<Vec<u8>>: |s| if s.bool() { Some((0..s.below(6)).map(|_| s.u8()).collect()) } else { None };
        Vec<Option<(u8, u64)>>: |s| (0..s.below(4)).map(|_| if s.bool() { Some((s.u8(), s.u64())) } else { None }).collect();
        Vec<bool>: |s| (0..s.below(9)).map(|_| s.bool()).collect();
        String: string;
        Box<(String, usize)>: |s| Box::new((string(s), small(s)));
        (Vec<B128>, String): |s| ((0..s.below(3)).map(|_| f128(s)).collect(), string(s));
        OracleId: oid;
        OracleOrConst<B128>: ooc;
        FlushDirection: dir;
        ShiftVariant: shift;
        Boundary<B128>: |s| Boundary { values: (0..s.below(4)).map(|_| f128(s)).collect(), channel_id: small(s), direction: dir(s), multiplicity: s.u64() };
        ProjectionVariant: |s| if s.bool() { ProjectionVariant::Last } else { ProjectionVariant::Offset(small(s)) };
        ArithCircuit<B128>: circuit;
        ArithCircuitPoly<B128>: |s| ArithCircuitPoly::new(circuit(s));
        Vec<AESTowerField16b>: |s| (0..s.below(4)).map(|_| AESTowerField16b::of(s.word(16))).collect();
        Vec<BinaryField1b>: |s| (0..s.below(9)).map(|_| BinaryField1b::from(s.bool())).collect();
        digest::Output<binius_hash::groestl::Groestl256>: |s| { let mut d = digest::Output::<binius_hash::groestl::Groestl256>::default(); for b in d.iter_mut() { *b = s.u8(); } d };
    }
    gen_dbg! {
        Flush<B128>: flush;
        Exp<B128>: exp;
        TableSizeSpec: spec;
        Constraint<B128>: constraint;
        ConstraintSet<B128>: constraint_set;
        SizedConstraintSet<B128>: |s| { let n = s.below(9); SizedConstraintSet::new(n, constraint_set(s)) };
        SymbolicMultilinearOracleSet<B128>: sym_set;
        ConstraintSystem<B128>: system;
    }
    fn instantiated(s: &mut NSrc) -> MultilinearOracleSet<B128> {
        for _ in 0..20 {
            let set = sym_set(s);
            let sizes: Vec<usize> = (0..3).map(|_| if s.below(4) == 0 { 0 } else { 1 << s.below(6) }).collect();
            if let Some(Ok(m)) = catches(|| set.instantiate(&sizes)) {
                return m;
            }
        }
        MultilinearOracleSet::new()
    }
    gen_dbg! { MultilinearOracleSet<B128>: instantiated; }

    macro_rules! packs { ($r:ident $($p:ident)*) => { $(
        impl Gen for $p {
            fn gen_(s: &mut NSrc) -> Self {
                let mut v = <$p>::default();
                for i in 0..<$p as PackedField>::WIDTH { v.set(i, Fx::of(s.word(<<$p as PackedField>::Scalar as Fx>::NB))); }
                v
            }
            fn same(&self, o: &Self) -> bool { (0..<$p as PackedField>::WIDTH).all(|i| self.get(i) == o.get(i)) }
        }
        $r.push((stringify!($p), codec::<$p>()));
    )* } }

    /// The encoding of a packed value is the concatenation of its lanes' bits, lane 0 first.
    fn packed_layout(s: &mut NSrc) -> R {
        macro_rules! one { ($p:ident, $bits:expr) => {{
            let m = mode(s);
            let w = <$p as PackedField>::WIDTH;
            let lanes: Vec<u128> = (0..w).map(|_| s.word($bits)).collect();
            let mut v = $p::default();
            for (i, l) in lanes.iter().enumerate() { v.set(i, Fx::of(*l)); }
            let b = enc(&v, m).expect("packed value serializes");
            ensures!(b.len() * 8 == (w * $bits).max(8), "packed encoding has the size of its lanes", "{}", stringify!($p));
            for (i, l) in lanes.iter().enumerate() {
                let mut got = 0u128;
                for k in 0..$bits as usize { let p = i * $bits as usize + k; got |= (((b[p / 8] >> (p % 8)) & 1) as u128) << k; }
                ensures!(got == *l, "lane i of a packed value is stored at position i of its encoding", "{} lane {i}", stringify!($p));
            }
        }} }
        match s.below(8) {
            0 => one!(PackedBinaryField128x1b, 1),
            1 => one!(PackedBinaryField8x16b, 16),
            2 => one!(PackedBinaryField1x128b, 128),
            3 => one!(PackedBinaryField256x1b, 1),
            4 => one!(PackedBinaryField8x32b, 32),
            5 => one!(PackedBinaryField16x4b, 4),
            6 => one!(PackedBinaryField4x128b, 128),
            _ => one!(PackedBinaryField64x8b, 8),
        }
        Ok(())
    }
    /// Digest of a constraint system depends on every part of it.
    fn system_digest(s: &mut NSrc) -> R {
        type H = binius_hash::groestl::Groestl256;
        let (a, b) = (system(s), system(s));
        let d = |c: &ConstraintSystem<B128>| c.digest::<H>();
        ensures!(d(&a) == d(&a.clone()), "digest is a function of the system");
        ensures!((format!("{a:?}") == format!("{b:?}")) == (d(&a) == d(&b)), "systems have equal digests exactly when they are equal");
        let mut c = a.clone();
        match s.below(7) {
            0 => c.channel_count ^= 1,
            1 => c.non_zero_oracle_ids.push(oid(s)),
            2 => c.flushes.push(flush(s)),
            3 => c.exponents.push(exp(s)),
            4 => c.table_size_specs.push(spec(s)),
            5 => c.table_constraints.push(constraint_set(s)),
            _ => {
                c.oracles.add_oracle(0, 0, "x").committed(s.below(8));
            }
        }
        ensures!(d(&a) != d(&c), "changing any part changes the digest");
        Ok(())
    }
    /// Transparent polynomials that differ have different encodings (they are part of the digest).
    fn transparent_inj(s: &mut NSrc) -> R {
        let (a, b) = (transparent(s), transparent(s));
        let m = mode(s);
        let (ea, eb) = (enc(&a, m), enc(&b, m));
        if let (Ok(ea), Ok(eb)) = (ea, eb) {
            if ea == eb {
                ensures!(same_poly(&*a, &*b), "equal encodings only for equal polynomials");
            }
        }
        Ok(())
    }
    fn utf8(s: &mut NSrc) -> R {
        let m = mode(s);
        let b: Vec<u8> = (0..s.below(5)).map(|_| if s.bool() { s.u8() } else { b'a' }).collect();
        let mut e = (b.len() as u32).to_le_bytes().to_vec();
        e.extend(&b);
        let got = String::deserialize(&mut &e[..], m);
        ensures!(got.is_ok() == std::str::from_utf8(&b).is_ok(), "strings decode exactly when they are UTF-8");
        if let Ok(g) = got {
            ensures!(g.as_bytes() == b, "string content");
        }
        Ok(())
    }

    pub fn register(r: &mut Runner) {
        let mut t: Vec<(&'static str, Codec)> = vec![];
        macro_rules! add { ($($t:ty),* $(,)?) => { $( t.push((stringify!($t), codec::<$t>())); )* } }
        add!(
            Vec<u32>, Vec<Vec<u16>>, Option<Vec<u8>>, Vec<Option<(u8, u64)>>, Vec<bool>, String, Box<(String, usize)>, (Vec<B128>, String), OracleId, OracleOrConst<B128>, FlushDirection,
            ShiftVariant, Boundary<B128>, ProjectionVariant, ArithCircuit<B128>, ArithCircuitPoly<B128>, Vec<AESTowerField16b>, Vec<BinaryField1b>, Flush<B128>, Exp<B128>, TableSizeSpec,
            Constraint<B128>, ConstraintSet<B128>, SizedConstraintSet<B128>, SymbolicMultilinearOracleSet<B128>, ConstraintSystem<B128>, MultilinearOracleSet<B128>, Box<dyn MultivariatePoly<B128>>,
        );
        t.push(("Digest", codec::<digest::Output<binius_hash::groestl::Groestl256>>()));
        packs!(t PackedBinaryField128x1b PackedBinaryField8x16b PackedBinaryField1x128b PackedBinaryField2x4b PackedBinaryField4x1b PackedBinaryField1x8b PackedBinaryField64x1b PackedBinaryField256x1b PackedBinaryField2x128b PackedBinaryField4x128b PackedBinaryField64x8b);
        for (n, c) in t {
            let c: &'static Codec = Box::leak(Box::new(c));
            r.sampled(&format!("round_trip_{n}"), "SerializeBytes::serialize, DeserializeBytes::deserialize", 1500, move |s| round_trip(c, s));
            r.sampled(&format!("total_{n}"), "DeserializeBytes::deserialize on damaged input", 3000, move |s| totality(c, s));
        }
        r.sampled("injective_boundary", "Boundary::serialize", 2000, |s| injective::<Boundary<B128>>(s));
        r.sampled("injective_vec", "Vec::serialize", 4000, |s| injective::<Vec<Option<(u8, u64)>>>(s));
        r.sampled("injective_nested", "Vec::serialize", 4000, |s| injective::<Vec<Vec<u16>>>(s));
        r.sampled("injective_oracle_set", "SymbolicMultilinearOracleSet::serialize", 2000, |s| injective::<SymbolicMultilinearOracleSet<B128>>(s));
        r.sampled("transparent_injective", "erased_serialize", 4000, transparent_inj);
        r.sampled("packed_layout", "packed fields' SerializeBytes", 4000, packed_layout);
        r.sampled("system_digest", "ConstraintSystem::digest", 1500, system_digest);
        r.sampled("utf8", "String::deserialize", 4000, utf8);
        r.sampled("aes64_codec", "AESTowerField64b codec", 8000, |s| super::noncanon::<AESTowerField64b, BinaryField64b, 8>(s));
        r.sampled("aes128_codec", "AESTowerField128b codec", 8000, |s| super::noncanon::<AESTowerField128b, BinaryField128b, 16>(s));
        r.sampled("polyval_codec", "BinaryField128bPolyval codec", 8000, |s| super::noncanon::<BinaryField128bPolyval, BinaryField128b, 16>(s));
        r.sampled("vec_codec", "Vec<u8> codec", 8000, |s| super::bytes_vec(s));
        r.sampled("vec_total", "Vec<u8> decode", 8000, |s| super::any_vec(s));
        super::obligations(r);
    }
}

obligations! {
    u8_codec, quick, 18, "complete", "u8 SerializeBytes/DeserializeBytes", uint8;
    u16_codec, quick, 18, "complete", "u16 SerializeBytes/DeserializeBytes", uint16;
    u32_codec, quick, 18, "complete", "u32 SerializeBytes/DeserializeBytes", uint32;
    u64_codec, quick, 18, "complete", "u64 SerializeBytes/DeserializeBytes", uint64;
    u128_codec, quick, 18, "complete", "u128 SerializeBytes/DeserializeBytes", uint128;
    bool_codec, quick, 18, "complete", "bool SerializeBytes/DeserializeBytes", boolean;
    usize_codec, quick, 18, "complete", "usize SerializeBytes/DeserializeBytes", usizes;
    f1_codec, quick, 18, "complete", "BinaryField1b codec", tower::<BinaryField1b, 1>;
    f2_codec, quick, 18, "complete", "BinaryField2b codec", tower::<BinaryField2b, 1>;
    f4_codec, quick, 18, "complete", "BinaryField4b codec", tower::<BinaryField4b, 1>;
    f8_codec, quick, 18, "complete", "BinaryField8b codec", tower::<BinaryField8b, 1>;
    f16_codec, quick, 18, "complete", "BinaryField16b codec", tower::<BinaryField16b, 2>;
    f32_codec, quick, 18, "complete", "BinaryField32b codec", tower::<BinaryField32b, 4>;
    f64_codec, quick, 18, "complete", "BinaryField64b codec", tower::<BinaryField64b, 8>;
    f128_codec, quick, 18, "complete", "BinaryField128b codec", tower::<BinaryField128b, 16>;
    aes8_codec, quick, 18, "complete", "AESTowerField8b codec", noncanon::<AESTowerField8b, BinaryField8b, 1>;
    aes16_codec, quick, 18, "complete", "AESTowerField16b codec", noncanon::<AESTowerField16b, BinaryField16b, 2>;
    aes32_codec, thorough, 18, "complete", "AESTowerField32b codec", noncanon::<AESTowerField32b, BinaryField32b, 4>;
    f1_total, quick, 18, "complete", "BinaryField1b decode", total_scalar::<BinaryField1b, 1, false>;
    f4_total, quick, 18, "complete", "BinaryField4b decode", total_scalar::<BinaryField4b, 1, false>;
    f32_total, quick, 18, "complete", "BinaryField32b decode", total_scalar::<BinaryField32b, 4, true>;
    f128_total, quick, 18, "complete", "BinaryField128b decode", total_scalar::<BinaryField128b, 16, true>;
    aes16_total, quick, 18, "complete", "AESTowerField16b decode", total_scalar::<AESTowerField16b, 2, false>;
    option_codec, quick, 18, "complete", "Option<u16> codec", option16;
    pair_codec, quick, 18, "complete", "(u8, u32) codec", pair;
}
