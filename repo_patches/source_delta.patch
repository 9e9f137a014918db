From 94296f6a28500cfee61fb8e829da2c38eee98dc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:54:29 +0000
Subject: [PATCH 01/52] fix: PackedField::get_checked must not read out of
 range

then_some evaluated get_unchecked(i) before looking at the bound, which is
undefined behaviour (a panic, or Ok with a wrong value) for i >= WIDTH.
---
 crates/field/src/packed.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/field/src/packed.rs b/crates/field/src/packed.rs
index 0c57301..de1a79d 100644
--- a/crates/field/src/packed.rs
+++ b/crates/field/src/packed.rs
@@ -83,7 +83,7 @@ pub trait PackedField:
 	#[inline]
 	fn get_checked(&self, i: usize) -> Result<Self::Scalar, Error> {
 		(i < Self::WIDTH)
-			.then_some(unsafe { self.get_unchecked(i) })
+			.then(|| unsafe { self.get_unchecked(i) })
 			.ok_or(Error::IndexOutOfRange {
 				index: i,
 				max: Self::WIDTH,
-- 
2.43.0


From a42725a4396efdd71e45a7bea077d384d70ee77a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:54:29 +0000
Subject: [PATCH 02/52] fix: copy_packed_from_scalars_slice writes the
 remainder to the right packed element

The index of the packed element was computed in scalars instead of packed
elements, so a partial last chunk panicked or landed in the wrong element.
---
 crates/field/src/packed.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/crates/field/src/packed.rs b/crates/field/src/packed.rs
index de1a79d..39041c1 100644
--- a/crates/field/src/packed.rs
+++ b/crates/field/src/packed.rs
@@ -462,8 +462,7 @@ pub fn copy_packed_from_scalars_slice<P: PackedField>(src: &[P::Scalar], dst: &m
 			}
 
 			if !remainder.is_empty() {
-				let offset = (src.len() >> P::LOG_WIDTH) << P::LOG_WIDTH;
-				let packed = &mut packed[offset];
+				let packed = &mut packed[src.len() >> P::LOG_WIDTH];
 				for (i, scalar) in remainder.iter().enumerate() {
 					// Safety: `i` is guaranteed to be less than `P::WIDTH`
 					unsafe { packed.set_unchecked(i, *scalar) };
-- 
2.43.0


From 318cfdb23501abc0a37f4260d52268cda013114f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:56:22 +0000
Subject: [PATCH 03/52] fix: unzip of byte-sliced packed fields with more than
 one row

The blocks were gathered inside each column, so the result was not the
documented unzip of the scalar sequence (and some shapes panicked).
---
 .../byte_sliced/packed_byte_sliced.rs         | 38 +++++++++++--------
 1 file changed, 23 insertions(+), 15 deletions(-)

diff --git a/crates/field/src/arch/portable/byte_sliced/packed_byte_sliced.rs b/crates/field/src/arch/portable/byte_sliced/packed_byte_sliced.rs
index fbe6f7d..e083ea7 100644
--- a/crates/field/src/arch/portable/byte_sliced/packed_byte_sliced.rs
+++ b/crates/field/src/arch/portable/byte_sliced/packed_byte_sliced.rs
@@ -807,9 +807,21 @@ macro_rules! define_byte_sliced_3d_1b {
 					let mut result1 = Self::default();
 					let mut result2 = Self::default();
 
-					for i in 0..Self::HEIGHT_BYTES {
-						(result1.data[i], result2.data[i]) =
-							self.data[i].unzip(other.data[i], log_block_len);
+					if Self::HEIGHT_BYTES == 1 {
+						(result1.data[0], result2.data[0]) =
+							self.data[0].unzip(other.data[0], log_block_len);
+					} else {
+						// Consecutive bytes lie in consecutive rows, bring each pair into one row first.
+						let half = Self::HEIGHT_BYTES / 2;
+						for i in 0..half {
+							let (lhs_even, lhs_odd) = self.data[2 * i].interleave(self.data[2 * i + 1], 3);
+							let (rhs_even, rhs_odd) =
+								other.data[2 * i].interleave(other.data[2 * i + 1], 3);
+
+							(result1.data[i], result2.data[i]) = lhs_even.unzip(rhs_even, log_block_len);
+							(result1.data[half + i], result2.data[half + i]) =
+								lhs_odd.unzip(rhs_odd, log_block_len);
+						}
 					}
 
 					(result1, result2)
@@ -952,20 +964,16 @@ fn unzip_byte_sliced<P: PackedField, const N: usize, const SCALAR_BYTES: usize>(
 
 	let log_height = checked_log_2(N);
 	if log_block_len < log_height {
+		// The block bit is dropped from the row number and the parity of the column becomes the
+		// highest bit of the row number.
 		let block_size = 1 << log_block_len;
 		let half = N / 2;
-		for block_offset in (0..half).step_by(block_size) {
-			let target_offset = block_offset * 2;
-
-			result1[block_offset..block_offset + block_size]
-				.copy_from_slice(&lhs[target_offset..target_offset + block_size]);
-			result1[half + target_offset..half + target_offset + block_size]
-				.copy_from_slice(&rhs[target_offset..target_offset + block_size]);
-
-			result2[block_offset..block_offset + block_size]
-				.copy_from_slice(&lhs[target_offset + block_size..target_offset + 2 * block_size]);
-			result2[half + target_offset..half + target_offset + block_size]
-				.copy_from_slice(&rhs[target_offset + block_size..target_offset + 2 * block_size]);
+		for i in 0..half {
+			let row = ((i >> log_block_len) << (log_block_len + 1)) | (i & (block_size - 1));
+
+			(result1[i], result1[half + i]) = lhs[row].unzip(rhs[row], 0);
+			(result2[i], result2[half + i]) =
+				lhs[row + block_size].unzip(rhs[row + block_size], 0);
 		}
 	} else {
 		for i in 0..N {
-- 
2.43.0


From 7123dcb8e06f42d43792420f302ba6dd826be420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:15:12 +0000
Subject: [PATCH 04/52] fix: is_aes_tower compared the type with itself and was
 always true

---
 crates/field/src/aes_field.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/field/src/aes_field.rs b/crates/field/src/aes_field.rs
index 972b0e1..48610be 100644
--- a/crates/field/src/aes_field.rs
+++ b/crates/field/src/aes_field.rs
@@ -103,7 +103,7 @@ impl TowerField for AESTowerField8b {
 /// Returns true if `F`` is AES tower field.
 #[inline(always)]
 pub fn is_aes_tower<F: TowerField>() -> bool {
-	TypeId::of::<F>() == TypeId::of::<F>()
+	TypeId::of::<F>() == TypeId::of::<AESTowerField8b>()
 		|| TypeId::of::<F>() == TypeId::of::<AESTowerField16b>()
 		|| TypeId::of::<F>() == TypeId::of::<AESTowerField32b>()
 		|| TypeId::of::<F>() == TypeId::of::<AESTowerField64b>()
-- 
2.43.0


From 0c6855870fee5dc1edcb449cfcebda6a4c32db04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:15:12 +0000
Subject: [PATCH 05/52] fix: basis and from_bases of BinaryField128bPolyval
 over BinaryField1b

basis(i) and from_bases are now consistent with iter_bases/get_base; before,
from_bases always returned an error and the basis was a different one.
---
 crates/field/src/polyval.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/crates/field/src/polyval.rs b/crates/field/src/polyval.rs
index 7483516..03f991e 100644
--- a/crates/field/src/polyval.rs
+++ b/crates/field/src/polyval.rs
@@ -426,7 +426,7 @@ impl ExtensionField<BinaryField1b> for BinaryField128bPolyval {
 		if i >= 128 {
 			return Err(Error::ExtensionDegreeMismatch);
 		}
-		Ok(Self::new(1 << i))
+		Ok(Self(1 << i))
 	}
 
 	#[inline]
@@ -434,15 +434,15 @@ impl ExtensionField<BinaryField1b> for BinaryField128bPolyval {
 		base_elems: impl IntoIterator<Item = BinaryField1b>,
 		log_stride: usize,
 	) -> Result<Self, Error> {
-		if log_stride != 7 {
-			return Err(Error::ExtensionDegreeMismatch);
+		let mut value = 0;
+		for (i, elem) in base_elems.into_iter().enumerate() {
+			let shift = i << log_stride;
+			if shift >= 128 {
+				return Err(Error::ExtensionDegreeMismatch);
+			}
+			value |= u128::from(elem.0) << shift;
 		}
-		// REVIEW: is this actually correct for a monomial field?
-		let value = base_elems
-			.into_iter()
-			.enumerate()
-			.fold(0, |value, (i, elem)| value | (u128::from(elem.0) << i));
-		Ok(Self::new(value))
+		Ok(Self(value))
 	}
 
 	#[inline]
-- 
2.43.0


From 50d01e8f441dec16944224d12302066bd8b4ed8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:15:12 +0000
Subject: [PATCH 06/52] fix: linear transformations of byte-sliced
 BinaryField1b packings

The transformation was ignored and the identity returned instead.
---
 .../byte_sliced/packed_byte_sliced.rs         | 27 ++++++++++++++++---
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/crates/field/src/arch/portable/byte_sliced/packed_byte_sliced.rs b/crates/field/src/arch/portable/byte_sliced/packed_byte_sliced.rs
index e083ea7..cb53673 100644
--- a/crates/field/src/arch/portable/byte_sliced/packed_byte_sliced.rs
+++ b/crates/field/src/arch/portable/byte_sliced/packed_byte_sliced.rs
@@ -22,7 +22,7 @@ use crate::{
 	as_packed_field::{PackScalar, PackedType},
 	binary_field::BinaryField,
 	linear_transformation::{
-		FieldLinearTransformation, IDTransformation, PackedTransformationFactory, Transformation,
+		FieldLinearTransformation, PackedTransformationFactory, Transformation,
 	},
 	packed_aes_field::PackedAESBinaryField32x8b,
 	tower_levels::{TowerLevel, TowerLevel1, TowerLevel2, TowerLevel4, TowerLevel8, TowerLevel16},
@@ -34,6 +34,9 @@ use crate::{
 /// `N` is the number of bytes in the scalar.
 pub struct TransformationWrapperNxN<Inner, const N: usize>([[Inner; N]; N]);
 
+/// Applies the inner transformation to every row.
+pub struct RowsTransformation<Inner>(Inner);
+
 /// Byte-sliced packed field with a fixed size (16x$packed_storage).
 /// For example for 32-bit scalar the data layout is the following:
 ///
@@ -891,12 +894,28 @@ macro_rules! define_byte_sliced_3d_1b {
 
 		impl PackedTransformationFactory<$name> for $name {
 			type PackedTransformation<Data: AsRef<[<$name as PackedField>::Scalar]> + Sync> =
-				IDTransformation;
+				RowsTransformation<
+					<$packed_storage as PackedTransformationFactory<$packed_storage>>::PackedTransformation<Data>,
+				>;
 
 			fn make_packed_transformation<Data: AsRef<[<$name as PackedField>::Scalar]> + Sync>(
-				_transformation: FieldLinearTransformation<<$name as PackedField>::Scalar, Data>,
+				transformation: FieldLinearTransformation<<$name as PackedField>::Scalar, Data>,
 			) -> Self::PackedTransformation<Data> {
-				IDTransformation
+				RowsTransformation(
+					<$packed_storage as PackedTransformationFactory<$packed_storage>>::make_packed_transformation(
+						transformation,
+					),
+				)
+			}
+		}
+
+		impl<Inner: Transformation<$packed_storage, $packed_storage>> Transformation<$name, $name>
+			for RowsTransformation<Inner>
+		{
+			fn transform(&self, data: &$name) -> $name {
+				$name {
+					data: array::from_fn(|i| self.0.transform(&data.data[i])),
+				}
 			}
 		}
 	};
-- 
2.43.0


From 4ea288189b528099d03726915f86855f67a3b132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:29:09 +0000
Subject: [PATCH 07/52] fix: reject malformed circuits when deserializing
 ArithCircuit

---
 crates/math/src/arith_expr.rs | 30 +++++++++++++++++++++++++++++-
 1 file changed, 29 insertions(+), 1 deletion(-)

diff --git a/crates/math/src/arith_expr.rs b/crates/math/src/arith_expr.rs
index c6b72b0..596608d 100644
--- a/crates/math/src/arith_expr.rs
+++ b/crates/math/src/arith_expr.rs
@@ -12,6 +12,7 @@ use std::{
 
 use binius_field::{Field, PackedField, TowerField};
 use binius_macros::{DeserializeBytes, SerializeBytes};
+use binius_utils::{DeserializeBytes, SerializationError, SerializationMode, bytes};
 
 use super::error::Error;
 
@@ -220,11 +221,38 @@ impl<F: Field> Default for ArithCircuitStep<F> {
 /// We store a tree in a form of a simple circuit.
 /// This implementation isn't optimized for performance, but rather for simplicity
 /// to allow easy conversion and preservation of the common subexpressions
-#[derive(Clone, Debug, SerializeBytes, DeserializeBytes, Eq)]
+#[derive(Clone, Debug, SerializeBytes, Eq)]
 pub struct ArithCircuit<F: Field> {
 	steps: Vec<ArithCircuitStep<F>>,
 }
 
+impl<F: Field> DeserializeBytes for ArithCircuit<F> {
+	fn deserialize(
+		read_buf: impl bytes::Buf,
+		mode: SerializationMode,
+	) -> Result<Self, SerializationError>
+	where
+		Self: Sized,
+	{
+		let steps = Vec::<ArithCircuitStep<F>>::deserialize(read_buf, mode)?;
+		// A circuit has at least one step, and a step only refers to the steps before it.
+		let well_formed = !steps.is_empty()
+			&& steps.iter().enumerate().all(|(i, step)| match *step {
+				ArithCircuitStep::Add(left, right) | ArithCircuitStep::Mul(left, right) => {
+					left < i && right < i
+				}
+				ArithCircuitStep::Pow(base, _) => base < i,
+				ArithCircuitStep::Const(_) | ArithCircuitStep::Var(_) => true,
+			});
+		if !well_formed {
+			return Err(SerializationError::InvalidConstruction {
+				name: "ArithCircuit",
+			});
+		}
+		Ok(Self { steps })
+	}
+}
+
 impl<F: Field> ArithCircuit<F> {
 	pub fn var(index: usize) -> Self {
 		Self {
-- 
2.43.0


From c653eaadc539dc969993bf481f32fd5d85d3f72d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:32:13 +0000
Subject: [PATCH 08/52] fix: ArithCircuitPoly reused slots of shared
 subexpressions

---
 crates/fast_compute/src/arith_circuit.rs | 65 +++++++++++++++++++-----
 1 file changed, 52 insertions(+), 13 deletions(-)

diff --git a/crates/fast_compute/src/arith_circuit.rs b/crates/fast_compute/src/arith_circuit.rs
index a66f74f..d68b2f9 100644
--- a/crates/fast_compute/src/arith_circuit.rs
+++ b/crates/fast_compute/src/arith_circuit.rs
@@ -55,6 +55,7 @@ fn convert_circuit_steps<F: Field>(
 	fn convert_step<F: Field>(
 		original_step: usize,
 		original_steps: &[ArithCircuitStep<F>],
+		use_counts: &[usize],
 		result: &mut Vec<CircuitStep<F>>,
 		node_to_step: &mut StepsMapping,
 	) -> CircuitStepArgument<F> {
@@ -66,15 +67,29 @@ fn convert_circuit_steps<F: Field>(
 			ArithCircuitStep::Const(constant) => CircuitStepArgument::Const(*constant),
 			ArithCircuitStep::Var(var) => CircuitStepArgument::Expr(CircuitNode::Var(*var)),
 			ArithCircuitStep::Add(left, right) => {
-				let left = convert_step(*left, original_steps, result, node_to_step);
-
-				if let CircuitStepArgument::Expr(CircuitNode::Slot(left)) = left {
+				let left_step = *left;
+				let left = convert_step(left_step, original_steps, use_counts, result, node_to_step);
+
+				// `AddMul` overwrites the slot of `left`, so nothing may refer to this slot
+				// afterwards: it has to be the slot of `left_step` itself, and not one it shares
+				// with its operand, and the only users of `left_step` have to be this addition and
+				// the factors of the product added to it.
+				let factor_uses = match original_steps[*right] {
+					ArithCircuitStep::Mul(mleft, mright) if use_counts[*right] == 1 => {
+						usize::from(mleft == left_step) + usize::from(mright == left_step)
+					}
+					_ => 0,
+				};
+				let left_slot = node_to_step
+					.get_converted_step(left_step)
+					.filter(|_| use_counts[left_step] == 1 + factor_uses);
+				if let Some(left) = left_slot {
 					if let ArithCircuitStep::Mul(mleft, mright) = &original_steps[*right] {
 						// Only handling e1 + (e2 * e3), not (e1 * e2) + e3, as latter was not
 						// observed in practice (the former can be enforced by rewriting
 						// expression)
-						let mleft = convert_step(*mleft, original_steps, result, node_to_step);
-						let mright = convert_step(*mright, original_steps, result, node_to_step);
+						let mleft = convert_step(*mleft, original_steps, use_counts, result, node_to_step);
+						let mright = convert_step(*mright, original_steps, use_counts, result, node_to_step);
 
 						// Since we'we changed the value of `left` to a new value, we need to clear
 						// the cache for it
@@ -86,29 +101,30 @@ fn convert_circuit_steps<F: Field>(
 					}
 				}
 
-				let right = convert_step(*right, original_steps, result, node_to_step);
+				let right = convert_step(*right, original_steps, use_counts, result, node_to_step);
 
 				node_to_step.register(original_step, result.len());
 				result.push(CircuitStep::Add(left, right));
 				CircuitStepArgument::Expr(CircuitNode::Slot(result.len() - 1))
 			}
 			ArithCircuitStep::Mul(left, right) => {
-				let left = convert_step(*left, original_steps, result, node_to_step);
-				let right = convert_step(*right, original_steps, result, node_to_step);
+				let left = convert_step(*left, original_steps, use_counts, result, node_to_step);
+				let right = convert_step(*right, original_steps, use_counts, result, node_to_step);
 
 				node_to_step.register(original_step, result.len());
 				result.push(CircuitStep::Mul(left, right));
 				CircuitStepArgument::Expr(CircuitNode::Slot(result.len() - 1))
 			}
 			ArithCircuitStep::Pow(base, exp) => {
-				let mut acc = convert_step(*base, original_steps, result, node_to_step);
+				if *exp == 0 {
+					return CircuitStepArgument::Const(F::ONE);
+				}
+
+				let mut acc = convert_step(*base, original_steps, use_counts, result, node_to_step);
 				let base_expr = acc;
 				let highest_bit = exp.ilog2();
 
 				for i in (0..highest_bit).rev() {
-					if i == 0 {
-						node_to_step.register(original_step, result.len());
-					}
 					result.push(CircuitStep::Square(acc));
 					acc = CircuitStepArgument::Expr(CircuitNode::Slot(result.len() - 1));
 
@@ -118,14 +134,37 @@ fn convert_circuit_steps<F: Field>(
 					}
 				}
 
+				if highest_bit > 0 {
+					node_to_step.register(original_step, result.len() - 1);
+				}
+
 				acc
 			}
 		}
 	}
 
+	// How many times each step is used as an operand of another one.
+	let mut use_counts = vec![0; expr.steps().len()];
+	for step in expr.steps() {
+		match step {
+			ArithCircuitStep::Add(left, right) | ArithCircuitStep::Mul(left, right) => {
+				use_counts[*left] += 1;
+				use_counts[*right] += 1;
+			}
+			ArithCircuitStep::Pow(base, _) => use_counts[*base] += 1,
+			ArithCircuitStep::Const(_) | ArithCircuitStep::Var(_) => {}
+		}
+	}
+
 	let mut steps = Vec::new();
 	let mut steps_mapping = StepsMapping::new(expr.steps().len());
-	let ret = convert_step(expr.steps().len() - 1, expr.steps(), &mut steps, &mut steps_mapping);
+	let ret = convert_step(
+		expr.steps().len() - 1,
+		expr.steps(),
+		&use_counts,
+		&mut steps,
+		&mut steps_mapping,
+	);
 	(steps, ret)
 }
 
-- 
2.43.0


From 1d6cd4038af2cea38f0263142c3463851257e734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:32:14 +0000
Subject: [PATCH 09/52] fix: powers with zero or overflowing exponents in
 ArithCircuit

---
 crates/math/src/arith_expr.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/crates/math/src/arith_expr.rs b/crates/math/src/arith_expr.rs
index 596608d..2896d78 100644
--- a/crates/math/src/arith_expr.rs
+++ b/crates/math/src/arith_expr.rs
@@ -296,9 +296,11 @@ impl<F: Field> ArithCircuit<F> {
 					step_degree(left, steps).max(step_degree(right, steps))
 				}
 				ArithCircuitStep::Mul(left, right) => {
-					step_degree(left, steps) + step_degree(right, steps)
+					step_degree(left, steps).saturating_add(step_degree(right, steps))
+				}
+				ArithCircuitStep::Pow(base, exp) => {
+					step_degree(base, steps).saturating_mul(exp as usize)
 				}
-				ArithCircuitStep::Pow(base, exp) => step_degree(base, steps) * (exp as usize),
 			}
 		}
 
@@ -352,7 +354,7 @@ impl<F: Field> ArithCircuit<F> {
 				// 1. log2(e) squarings.
 				// 1. popcount(e) - 1 multiplications.
 				ArithCircuitStep::Pow(_, exp) => {
-					let n_squares = exp.ilog2() as usize;
+					let n_squares = exp.checked_ilog2().unwrap_or(0) as usize;
 					let n_muls = exp.count_ones().saturating_sub(1) as usize;
 					acc + EvalCost::mul(n_muls) + EvalCost::square(n_squares)
 				}
@@ -383,11 +385,11 @@ impl<F: Field> ArithCircuit<F> {
 			ArithCircuitStep::Mul(left, right) => {
 				let (lhs_degree, lhs) = self.leading_term_with_degree(*left);
 				let (rhs_degree, rhs) = self.leading_term_with_degree(*right);
-				(lhs_degree + rhs_degree, lhs * rhs)
+				(lhs_degree.saturating_add(rhs_degree), lhs * rhs)
 			}
 			ArithCircuitStep::Pow(base, exp) => {
 				let (base_degree, base) = self.leading_term_with_degree(*base);
-				(base_degree * (*exp as usize), base.pow(*exp))
+				(base_degree.saturating_mul(*exp as usize), base.pow(*exp))
 			}
 		}
 	}
@@ -614,7 +616,10 @@ impl<F: Field> ArithCircuit<F> {
 						*curr_step = ArithCircuitStep::Const(PackedField::pow(value, *exp));
 					}
 					ArithCircuitStep::Pow(base_inner, exp_inner) => {
-						*curr_step = ArithCircuitStep::Pow(base_inner, *exp * exp_inner);
+						// Keep the nested powers if the product of the exponents is too large
+						if let Some(exp) = exp.checked_mul(exp_inner) {
+							*curr_step = ArithCircuitStep::Pow(base_inner, exp);
+						}
 					}
 					_ => {}
 				},
-- 
2.43.0


From ca37c5522c66c4432c0e29c1977aa5953980991d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:33:56 +0000
Subject: [PATCH 10/52] fix: serialization of MultilinearExtensionTransparent

---
 .../src/transparent/multilinear_extension.rs  | 95 +++++++++++--------
 1 file changed, 55 insertions(+), 40 deletions(-)

diff --git a/crates/core/src/transparent/multilinear_extension.rs b/crates/core/src/transparent/multilinear_extension.rs
index bd71863..1c71556 100644
--- a/crates/core/src/transparent/multilinear_extension.rs
+++ b/crates/core/src/transparent/multilinear_extension.rs
@@ -5,7 +5,9 @@ use std::{fmt::Debug, ops::Deref};
 use binius_field::{
 	BinaryField1b, BinaryField2b, BinaryField4b, BinaryField8b, BinaryField16b, BinaryField32b,
 	BinaryField64b, BinaryField128b, ExtensionField, PackedField, RepackedExtension, TowerField,
-	arch::OptimalUnderlier, as_packed_field::PackedType, packed::pack_slice,
+	arch::OptimalUnderlier,
+	as_packed_field::{PackScalar, PackedType},
+	packed::pack_slice,
 };
 use binius_hal::{ComputationBackendExt, make_portable_backend};
 use binius_macros::erased_serialize_bytes;
@@ -41,15 +43,18 @@ where
 {
 	fn serialize(
 		&self,
-		write_buf: impl bytes::BufMut,
+		mut write_buf: impl bytes::BufMut,
 		mode: SerializationMode,
 	) -> Result<(), SerializationError> {
-		let elems = PE::iter_slice(
-			self.data
-				.packed_evals()
-				.expect("Evals should always be available here"),
-		)
-		.collect::<Vec<_>>();
+		let tower_level = PE::Scalar::TOWER_LEVEL - self.data.log_extension_degree();
+		let elems = (0..1 << self.data.n_vars())
+			.map(|i| {
+				self.data
+					.evaluate_on_hypercube(i)
+					.expect("i is in range 0..1 << n_vars")
+			})
+			.collect::<Vec<_>>();
+		SerializeBytes::serialize(&tower_level, &mut write_buf, mode)?;
 		SerializeBytes::serialize(&elems, write_buf, mode)
 	}
 }
@@ -58,44 +63,54 @@ inventory::submit! {
 	<dyn MultivariatePoly<BinaryField128b>>::register_deserializer(
 		"MultilinearExtensionTransparent",
 		|buf, mode| {
-			type U = OptimalUnderlier;
-			type F = BinaryField128b;
-			type P = PackedType<U, F>;
-			let hypercube_evals = Vec::<F>::deserialize(&mut *buf, mode)?;
-			let result: Box<dyn MultivariatePoly<F>> = if let Some(packed_evals) = try_pack_slice(&hypercube_evals) {
-				Box::new(MultilinearExtensionTransparent::<PackedType<U, BinaryField1b>, P, _>::from_values(packed_evals).unwrap())
-			} else if let Some(packed_evals) = try_pack_slice(&hypercube_evals) {
-				Box::new(MultilinearExtensionTransparent::<PackedType<U, BinaryField2b>, P, _>::from_values(packed_evals).unwrap())
-			} else if let Some(packed_evals) = try_pack_slice(&hypercube_evals) {
-				Box::new(MultilinearExtensionTransparent::<PackedType<U, BinaryField4b>, P, _>::from_values(packed_evals).unwrap())
-			} else if let Some(packed_evals) = try_pack_slice(&hypercube_evals) {
-				Box::new(MultilinearExtensionTransparent::<PackedType<U, BinaryField8b>, P, _>::from_values(packed_evals).unwrap())
-			} else if let Some(packed_evals) = try_pack_slice(&hypercube_evals) {
-				Box::new(MultilinearExtensionTransparent::<PackedType<U, BinaryField16b>, P, _>::from_values(packed_evals).unwrap())
-			} else if let Some(packed_evals) = try_pack_slice(&hypercube_evals) {
-				Box::new(MultilinearExtensionTransparent::<PackedType<U, BinaryField32b>, P, _>::from_values(packed_evals).unwrap())
-			} else if let Some(packed_evals) = try_pack_slice(&hypercube_evals) {
-				Box::new(MultilinearExtensionTransparent::<PackedType<U, BinaryField64b>, P, _>::from_values(packed_evals).unwrap())
-			} else {
-				Box::new(MultilinearExtensionTransparent::<P, P, _>::from_values(pack_slice(&hypercube_evals)).unwrap())
-			};
-			Ok(result)
+			let tower_level = usize::deserialize(&mut *buf, mode)?;
+			let hypercube_evals = Vec::<BinaryField128b>::deserialize(&mut *buf, mode)?;
+			match tower_level {
+				0 => from_hypercube_evals::<BinaryField1b>(&hypercube_evals),
+				1 => from_hypercube_evals::<BinaryField2b>(&hypercube_evals),
+				2 => from_hypercube_evals::<BinaryField4b>(&hypercube_evals),
+				3 => from_hypercube_evals::<BinaryField8b>(&hypercube_evals),
+				4 => from_hypercube_evals::<BinaryField16b>(&hypercube_evals),
+				5 => from_hypercube_evals::<BinaryField32b>(&hypercube_evals),
+				6 => from_hypercube_evals::<BinaryField64b>(&hypercube_evals),
+				7 => from_hypercube_evals::<BinaryField128b>(&hypercube_evals),
+				_ => Err(INVALID_CONSTRUCTION),
+			}
 		}
 	)
 }
 
-fn try_pack_slice<PS, F>(xs: &[F]) -> Option<Vec<PS>>
+const INVALID_CONSTRUCTION: SerializationError = SerializationError::InvalidConstruction {
+	name: "MultilinearExtensionTransparent",
+};
+
+/// Constructs the multilinear extension of values that all lie in the subfield `FS`.
+fn from_hypercube_evals<FS>(
+	hypercube_evals: &[BinaryField128b],
+) -> Result<Box<dyn MultivariatePoly<BinaryField128b>>, SerializationError>
 where
-	PS: PackedField,
-	F: ExtensionField<PS::Scalar>,
+	FS: TowerField,
+	BinaryField128b: ExtensionField<FS>,
+	OptimalUnderlier: PackScalar<FS>,
+	PackedType<OptimalUnderlier, BinaryField128b>:
+		RepackedExtension<PackedType<OptimalUnderlier, FS>>,
 {
-	Some(pack_slice(
-		&xs.iter()
-			.copied()
-			.map(TryInto::try_into)
-			.collect::<Result<Vec<_>, _>>()
-			.ok()?,
-	))
+	if !hypercube_evals.len().is_power_of_two() {
+		return Err(INVALID_CONSTRUCTION);
+	}
+	let n_vars = hypercube_evals.len().ilog2() as usize;
+	let subfield_evals = hypercube_evals
+		.iter()
+		.map(|&eval| TryInto::<FS>::try_into(eval))
+		.collect::<Result<Vec<_>, _>>()
+		.map_err(|_| INVALID_CONSTRUCTION)?;
+	let poly = MultilinearExtensionTransparent::<
+		PackedType<OptimalUnderlier, FS>,
+		PackedType<OptimalUnderlier, BinaryField128b>,
+		_,
+	>::from_values_and_mu(pack_slice(&subfield_evals), n_vars)
+	.map_err(|_| INVALID_CONSTRUCTION)?;
+	Ok(Box::new(poly))
 }
 
 impl<P, PE, Data> MultilinearExtensionTransparent<P, PE, Data>
-- 
2.43.0


From 0e8c37916012e280d1aab6fd3916ef41c3ce0915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:10:35 +0000
Subject: [PATCH 11/52] fix: batch_evaluate of ArithCircuitPoly with constant
 factors

With two constant operands, the operation was applied to an uninitialized
temporary, so that AddMul lost the value of its target.
---
 crates/fast_compute/src/arith_circuit.rs | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/crates/fast_compute/src/arith_circuit.rs b/crates/fast_compute/src/arith_circuit.rs
index d68b2f9..e20b54e 100644
--- a/crates/fast_compute/src/arith_circuit.rs
+++ b/crates/fast_compute/src/arith_circuit.rs
@@ -562,16 +562,10 @@ fn apply_binary_op<F: Field, P: PackedField<Scalar: ExtensionField<F>>>(
 		(CircuitStepArgument::Const(left), CircuitStepArgument::Const(right)) => {
 			let left = P::broadcast((*left).into());
 			let right = P::broadcast((*right).into());
-			let mut result = MaybeUninit::uninit();
-			op(left, right, &mut result);
 			for j in 0..row_len {
-				// Safety:
-				// - `current` has length equal to `row_len`
-				// - `result` is initialized by `op`
+				// Safety: `current` has length equal to `row_len`
 				unsafe {
-					current_evals
-						.get_unchecked_mut(j)
-						.write(result.assume_init());
+					op(left, right, current_evals.get_unchecked_mut(j));
 				}
 			}
 		}
-- 
2.43.0


From ff8030946fa1e603841bdc7b27dad8b482195733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:30:42 +0000
Subject: [PATCH 12/52] fix: sampling a single byte from an exhausted
 HasherChallenger panicked

---
 crates/core/src/fiat_shamir/hasher_challenger.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/crates/core/src/fiat_shamir/hasher_challenger.rs b/crates/core/src/fiat_shamir/hasher_challenger.rs
index 811fc54..2c9a6be 100644
--- a/crates/core/src/fiat_shamir/hasher_challenger.rs
+++ b/crates/core/src/fiat_shamir/hasher_challenger.rs
@@ -156,6 +156,18 @@ where
 		&self.buffer[self.index..]
 	}
 
+	// The default implementations read the first byte of `chunk`, which is empty until the next
+	// call to `advance` when the buffer is exhausted.
+	fn get_u8(&mut self) -> u8 {
+		let mut bytes = [0u8; 1];
+		self.copy_to_slice(&mut bytes);
+		bytes[0]
+	}
+
+	fn get_i8(&mut self) -> i8 {
+		self.get_u8() as i8
+	}
+
 	fn advance(&mut self, mut cnt: usize) {
 		// Must handle the case when `cnt` is 0
 		if self.index == <H as Digest>::output_size() {
-- 
2.43.0


From d50d50a4bf138bdf1445960548bb7960abf524eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:32:20 +0000
Subject: [PATCH 13/52] fix: proof_size of BinaryMerkleTreeScheme

An opening has log_len - layer_depth branch nodes; the previous formula counted
one less and underflowed for layer_depth == log_len.
---
 crates/core/src/merkle_tree/scheme.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/core/src/merkle_tree/scheme.rs b/crates/core/src/merkle_tree/scheme.rs
index cbd04c1..c1f1fc3 100644
--- a/crates/core/src/merkle_tree/scheme.rs
+++ b/crates/core/src/merkle_tree/scheme.rs
@@ -60,7 +60,7 @@ where
 			bail!(Error::IncorrectLayerDepth)
 		}
 
-		Ok(((log_len - layer_depth - 1) * n_queries + (1 << layer_depth))
+		Ok(((log_len - layer_depth) * n_queries + (1 << layer_depth))
 			* <H as Digest>::output_size())
 	}
 
-- 
2.43.0


From 413f910669388245932cccd928b7750ebce24970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:33:16 +0000
Subject: [PATCH 14/52] fix: report invalid batch sizes and layer depths in the
 Merkle tree scheme

---
 crates/core/src/merkle_tree/binary_merkle_tree.rs | 2 +-
 crates/core/src/merkle_tree/scheme.rs             | 6 +++++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/crates/core/src/merkle_tree/binary_merkle_tree.rs b/crates/core/src/merkle_tree/binary_merkle_tree.rs
index 2594680..db493de 100644
--- a/crates/core/src/merkle_tree/binary_merkle_tree.rs
+++ b/crates/core/src/merkle_tree/binary_merkle_tree.rs
@@ -34,7 +34,7 @@ where
 	H: ParallelDigest<Digest: BlockSizeUser + FixedOutputReset>,
 	C: PseudoCompressionFunction<Output<H::Digest>, 2> + Sync,
 {
-	if elements.len() % batch_size != 0 {
+	if batch_size == 0 || elements.len() % batch_size != 0 {
 		bail!(Error::IncorrectBatchSize);
 	}
 
diff --git a/crates/core/src/merkle_tree/scheme.rs b/crates/core/src/merkle_tree/scheme.rs
index c1f1fc3..1d8091c 100644
--- a/crates/core/src/merkle_tree/scheme.rs
+++ b/crates/core/src/merkle_tree/scheme.rs
@@ -70,7 +70,7 @@ where
 		data: &[F],
 		batch_size: usize,
 	) -> Result<(), Error> {
-		if data.len() % batch_size != 0 {
+		if batch_size == 0 || data.len() % batch_size != 0 {
 			bail!(Error::IncorrectBatchSize);
 		}
 
@@ -122,6 +122,10 @@ where
 			bail!(VerificationError::IncorrectVectorLength);
 		}
 
+		if layer_depth > tree_depth {
+			bail!(Error::IncorrectLayerDepth);
+		}
+
 		if index >= (1 << tree_depth) {
 			bail!(Error::IndexOutOfRange {
 				max: (1 << tree_depth) - 1
-- 
2.43.0


From d91be90afc44f3c96660f81aa267a8f6261adb28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:37:56 +0000
Subject: [PATCH 15/52] fix: fill the unused lanes of a partial chunk in
 ParallelMultidigestImpl

A chunk with fewer messages than lanes was hashed with empty (or stale) buffers in
the unused lanes, so that multi-lane hashers, which require messages of equal length,
read out of range.
---
 crates/hash/src/multi_digest.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/hash/src/multi_digest.rs b/crates/hash/src/multi_digest.rs
index b37726f..f544933 100644
--- a/crates/hash/src/multi_digest.rs
+++ b/crates/hash/src/multi_digest.rs
@@ -123,11 +123,14 @@ impl<D: MultiDigest<N, Digest: Send> + Send + Sync, const N: usize> ParallelDige
 			buffers,
 			|buffers, (data, out_chunk)| {
 				let mut hasher = self.0.clone();
+				let n_messages = data.len();
 				for (buf, chunk) in buffers.iter_mut().zip(data.into_iter()) {
 					buf.clear();
 					chunk.serialize(buf);
 				}
-				let data = array::from_fn(|i| buffers[i].as_ref());
+				// All lanes must have the same length, so in a partial chunk the unused lanes
+				// repeat the first message.
+				let data = array::from_fn(|i| buffers[if i < n_messages { i } else { 0 }].as_ref());
 				hasher.update(data);
 
 				if out_chunk.len() == N {
-- 
2.43.0


From 66a6db1136f3fd4c53ca5ac8872d1dcbb9333cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:45:23 +0000
Subject: [PATCH 16/52] fix: compare log sizes when repeating a short
 Reed-Solomon message

The dimension itself, not its logarithm, was compared with the packing's log width, so
that a message shorter than a packed element was not repeated within it.
---
 crates/core/src/reed_solomon/reed_solomon.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/core/src/reed_solomon/reed_solomon.rs b/crates/core/src/reed_solomon/reed_solomon.rs
index 5e731c1..acd0f4e 100644
--- a/crates/core/src/reed_solomon/reed_solomon.rs
+++ b/crates/core/src/reed_solomon/reed_solomon.rs
@@ -131,7 +131,7 @@ impl<F: BinaryField> ReedSolomonCode<F> {
 
 		// First, if the message is less than the packing width, we need to repeat it to fill one
 		// packed element.
-		if self.dim() + log_batch_size < P::LOG_WIDTH {
+		if self.log_dim() + log_batch_size < P::LOG_WIDTH {
 			let repeated_values = code[0]
 				.into_iter()
 				.take(1 << (self.log_dim() + log_batch_size))
-- 
2.43.0


From a4bcca3228650b344a64365d9b2d30d8f3790b7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:19:51 +0000
Subject: [PATCH 17/52] fix: reject an out-of-range column in Array2D indexing
 and report the stored row count

---
 crates/utils/src/array_2d.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/utils/src/array_2d.rs b/crates/utils/src/array_2d.rs
index 05d9cdb..e0287e5 100644
--- a/crates/utils/src/array_2d.rs
+++ b/crates/utils/src/array_2d.rs
@@ -38,7 +38,7 @@ impl<T: Default + Clone> Array2D<T> {
 impl<T, Data: Deref<Target = [T]>> Array2D<T, Data> {
 	/// Returns the number of rows in the array.
 	pub fn rows(&self) -> usize {
-		self.data.len() / self.cols
+		self.rows
 	}
 
 	/// Returns the number of columns in the array.
@@ -112,13 +112,13 @@ impl<T, Data: Deref<Target = [T]>> Index<(usize, usize)> for Array2D<T, Data> {
 	type Output = T;
 
 	fn index(&self, (i, j): (usize, usize)) -> &Self::Output {
-		&self.data[i * self.cols + j]
+		&self.get_row(i)[j]
 	}
 }
 
 impl<T, Data: DerefMut<Target = [T]>> IndexMut<(usize, usize)> for Array2D<T, Data> {
 	fn index_mut(&mut self, (i, j): (usize, usize)) -> &mut Self::Output {
-		&mut self.data[i * self.cols + j]
+		&mut self.get_row_mut(i)[j]
 	}
 }
 
-- 
2.43.0


From ca6eb344a041a805e63fa43db1361bf6d04336e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:07 +0000
Subject: [PATCH 18/52] fix: count the bytes of byte-sliced BinaryField1b
 packings in bytes

---
 .../field/src/arch/portable/byte_sliced/packed_byte_sliced.rs   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/field/src/arch/portable/byte_sliced/packed_byte_sliced.rs b/crates/field/src/arch/portable/byte_sliced/packed_byte_sliced.rs
index cb53673..51f18e5 100644
--- a/crates/field/src/arch/portable/byte_sliced/packed_byte_sliced.rs
+++ b/crates/field/src/arch/portable/byte_sliced/packed_byte_sliced.rs
@@ -634,7 +634,7 @@ macro_rules! define_byte_sliced_3d_1b {
 
 		impl $name {
 			pub const BYTES: usize =
-				<$storage_tower_level as TowerLevel>::WIDTH * <$packed_storage>::WIDTH;
+				<$storage_tower_level as TowerLevel>::WIDTH * <$packed_storage>::WIDTH / 8;
 
 			pub const HEIGHT_BYTES: usize = <$storage_tower_level as TowerLevel>::WIDTH;
 			const LOG_HEIGHT: usize = checked_log_2(Self::HEIGHT_BYTES);
-- 
2.43.0


From 4d0b6ee6553617f8430e07f46596bc58e9a32a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:07 +0000
Subject: [PATCH 19/52] fix: ignore values and weights beyond the given sizes
 in 1-bit folds

---
 crates/math/src/fold.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/math/src/fold.rs b/crates/math/src/fold.rs
index 83ac592..5e97eef 100644
--- a/crates/math/src/fold.rs
+++ b/crates/math/src/fold.rs
@@ -500,6 +500,10 @@ where
 		return false;
 	}
 
+	// The callbacks write one output value per group of input bits without bounds checks, so exclude
+	// the packed values beyond the first `1 << log_evals_size` scalars.
+	let evals = &evals[..1 << (log_evals_size - P::LOG_WIDTH)];
+
 	// We pass log_query_size_ as a generic parameter because that allows a compiler producing
 	// more efficient code in the tight loops inside the functions.
 	match log_query_size {
@@ -896,7 +900,8 @@ fn fold_left_1b_128b_impl<PE, U>(
 
 	let items_in_byte = 8 / PE::WIDTH;
 	let row_size_bytes = 1 << (log_evals_size - log_query_size - 3);
-	for (query_val, row_bytes) in PE::iter_slice(query).zip(evals.chunks(row_size_bytes)) {
+	let query_vals = PE::iter_slice(query).take(1 << log_query_size);
+	for (query_val, row_bytes) in query_vals.zip(evals.chunks(row_size_bytes)) {
 		let query_val = PE::broadcast(query_val).to_underlier();
 		for (byte_index, byte) in row_bytes.iter().enumerate() {
 			let mask_offset = *byte as usize * items_in_byte;
-- 
2.43.0


From db7443085a4dd64326efd42fc77a9b1bc5b7ec26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:07 +0000
Subject: [PATCH 20/52] fix: zero_pad into a packed element wider than the
 padded values

---
 crates/math/src/fold.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/math/src/fold.rs b/crates/math/src/fold.rs
index 5e97eef..60218ef 100644
--- a/crates/math/src/fold.rs
+++ b/crates/math/src/fold.rs
@@ -43,7 +43,7 @@ where
 	}
 
 	let extra_vars = log_new_vals - log_evals_size;
-	if nonzero_index > 1 << extra_vars {
+	if nonzero_index >= 1 << extra_vars {
 		bail!(Error::IncorrectNonZeroIndex {
 			expected: 1 << extra_vars
 		});
@@ -57,7 +57,7 @@ where
 	for (outer_index, packed_result_eval) in out.iter_mut().enumerate() {
 		// Index of the Scalar at the start of the current Packed element in `out`.
 		let outer_word_start = outer_index << PE::LOG_WIDTH;
-		for inner_index in 0..min(PE::WIDTH, 1 << log_evals_size) {
+		for inner_index in 0..min(PE::WIDTH, 1 << log_new_vals) {
 			// Index of the current Scalar in `out`.
 			let outer_scalar_index = outer_word_start + inner_index;
 			// Column index, within the reshaped `evals`, where we start the dot-product with the
-- 
2.43.0


From 4466c183dd641c72ffc24d71daa7eb10c40ec122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:12 +0000
Subject: [PATCH 21/52] fix: BinarySubspace::get_checked for dimensions of
 usize::BITS and more

---
 crates/math/src/binary_subspace.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/crates/math/src/binary_subspace.rs b/crates/math/src/binary_subspace.rs
index ced6e4b..19f3f67 100644
--- a/crates/math/src/binary_subspace.rs
+++ b/crates/math/src/binary_subspace.rs
@@ -88,11 +88,14 @@ impl<F: BinaryField> BinarySubspace<F> {
 	}
 
 	pub fn get_checked(&self, index: usize) -> Result<F, Error> {
-		if index >= 1 << self.basis.len() {
-			bail!(Error::ArgumentRangeError {
-				arg: "index".to_string(),
-				range: 0..1 << self.basis.len(),
-			});
+		// A subspace of dimension `usize::BITS` or more has an element for every index.
+		if let Some(size) = 1usize.checked_shl(self.basis.len() as u32) {
+			if index >= size {
+				bail!(Error::ArgumentRangeError {
+					arg: "index".to_string(),
+					range: 0..size,
+				});
+			}
 		}
 		Ok(self.get(index))
 	}
-- 
2.43.0


From dd0a5992a1e3ea191ad70e9567969f34da8c5f36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:12 +0000
Subject: [PATCH 22/52] fix: continue the powers across chunks of packed
 elements

Powers::multilinear_extension starts chunk i at the power i * 2^10, but a
chunk holds 2^10 packed elements: with packed elements of more than one
scalar, every chunk after the first repeated earlier powers.
---
 crates/core/src/transparent/powers.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/core/src/transparent/powers.rs b/crates/core/src/transparent/powers.rs
index f1183b9..4a8956e 100644
--- a/crates/core/src/transparent/powers.rs
+++ b/crates/core/src/transparent/powers.rs
@@ -42,7 +42,7 @@ impl<F: TowerField> Powers<F> {
 			.par_chunks_mut(1 << CHUNK_LOG_SIZE)
 			.enumerate()
 			.for_each(|(chunk_index, chunk)| {
-				let start_power = (chunk_index as u64) << CHUNK_LOG_SIZE;
+				let start_power = (chunk_index as u64) << (CHUNK_LOG_SIZE + P::LOG_WIDTH);
 				let powers = successors(Some(self.base.pow_vartime([start_power])), |&power| {
 					Some(power * self.base)
 				})
-- 
2.43.0


From 6622acde9f87ec5f449c6c0b2c21dba61b05dde5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:01 +0000
Subject: [PATCH 23/52] fix: reference tensor expansion ignores what the upper
 half of the buffer held

---
 crates/compute/src/cpu/layer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/compute/src/cpu/layer.rs b/crates/compute/src/cpu/layer.rs
index 52e3992..1e49872 100644
--- a/crates/compute/src/cpu/layer.rs
+++ b/crates/compute/src/cpu/layer.rs
@@ -295,7 +295,7 @@ impl<F: TowerTop> ComputeLayerExecutor<F> for CpuLayerExecutor<F> {
 			for (x_i, y_i) in std::iter::zip(lhs, rhs) {
 				let prod = *x_i * r_i;
 				*x_i -= prod;
-				*y_i += prod;
+				*y_i = prod;
 			}
 		}
 		Ok(())
-- 
2.43.0


From 499e58a54c72905acba9da9e3cf5bc78002debb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:01 +0000
Subject: [PATCH 24/52] fix: report kernel errors in the reference map_kernels

---
 crates/compute/src/cpu/layer.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/crates/compute/src/cpu/layer.rs b/crates/compute/src/cpu/layer.rs
index 1e49872..db1ad5b 100644
--- a/crates/compute/src/cpu/layer.rs
+++ b/crates/compute/src/cpu/layer.rs
@@ -198,8 +198,7 @@ impl<F: TowerTop> ComputeLayerExecutor<F> for CpuLayerExecutor<F> {
 		) -> Result<(), Error>,
 		mem_maps: Vec<KernelMemMap<'_, F, Self::DevMem>>,
 	) -> Result<(), Error> {
-		self.process_kernels_chunks(map, mem_maps)?.for_each(drop);
-		Ok(())
+		self.process_kernels_chunks(map, mem_maps)?.collect()
 	}
 
 	fn inner_product<'a>(
-- 
2.43.0


From 9199f4def0becb253b28199ec3a5d2bf96f4d7a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:01 +0000
Subject: [PATCH 25/52] fix: zero the local buffers of every kernel

---
 crates/compute/src/cpu/layer.rs  | 2 ++
 crates/fast_compute/src/layer.rs | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/crates/compute/src/cpu/layer.rs b/crates/compute/src/cpu/layer.rs
index db1ad5b..109494e 100644
--- a/crates/compute/src/cpu/layer.rs
+++ b/crates/compute/src/cpu/layer.rs
@@ -143,6 +143,8 @@ impl<F: TowerTop> CpuLayerExecutor<F> {
 		let total_alloc = count_total_local_buffer_sizes(&mem_maps, log_chunks);
 		let mut local_buffer = zeroed_vec(total_alloc);
 		let iter = (0..1 << log_chunks).map(move |i| {
+			// Local buffers start out as zeros in every kernel.
+			local_buffer.fill(F::ZERO);
 			let local_buffer_alloc = BumpAllocator::new(local_buffer.as_mut());
 			let kernel_data =
 				Self::map_kernel_mem(&mut mem_maps, &local_buffer_alloc, log_chunks, i);
diff --git a/crates/fast_compute/src/layer.rs b/crates/fast_compute/src/layer.rs
index bac9a44..98794fc 100644
--- a/crates/fast_compute/src/layer.rs
+++ b/crates/fast_compute/src/layer.rs
@@ -269,6 +269,8 @@ impl<'a, T: TowerFamily, P: PackedTop<T>> FastCpuExecutor<'a, T, P> {
 				if buffer.len() < total_alloc {
 					buffer.resize(total_alloc, P::zero());
 				}
+				// Local buffers start out as zeros in every kernel.
+				buffer[..total_alloc].fill(P::zero());
 
 				let buffer = PackedMemorySliceMut::new_slice(&mut buffer);
 				let allocator = BumpAllocator::<T::B128, PackedMemory<P>>::new(buffer);
-- 
2.43.0


From 96ed5bd2aeb8c27aff92fce671f4a5f657131d14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:31 +0000
Subject: [PATCH 26/52] fix: refuse out-of-range slices of packed device memory

---
 crates/fast_compute/src/memory.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/crates/fast_compute/src/memory.rs b/crates/fast_compute/src/memory.rs
index 7810dae..a280910 100644
--- a/crates/fast_compute/src/memory.rs
+++ b/crates/fast_compute/src/memory.rs
@@ -36,10 +36,9 @@ impl<P: PackedField> ComputeMemory<P::Scalar> for PackedMemory<P> {
 	}
 
 	fn slice(data: Self::FSlice<'_>, range: impl std::ops::RangeBounds<usize>) -> Self::FSlice<'_> {
-		let (start, end) = Self::to_packed_range(data.len(), range);
-		if start == 0 && end == data.len() {
+		let Some((start, end)) = Self::to_packed_range(data.len(), range) else {
 			return data;
-		}
+		};
 
 		let PackedMemorySlice::Slice(slice) = data else {
 			panic!("splitting slices of length less than `Self::ALIGNMENT` is not supported");
@@ -51,10 +50,9 @@ impl<P: PackedField> ComputeMemory<P::Scalar> for PackedMemory<P> {
 		data: &'a mut Self::FSliceMut<'_>,
 		range: impl std::ops::RangeBounds<usize>,
 	) -> Self::FSliceMut<'a> {
-		let (start, end) = Self::to_packed_range(data.len(), range);
-		if start == 0 && end == data.len() {
+		let Some((start, end)) = Self::to_packed_range(data.len(), range) else {
 			return Self::to_owned_mut(data);
-		}
+		};
 
 		let PackedMemorySliceMut::Slice(slice) = data else {
 			panic!("splitting slices of length less than `Self::ALIGNMENT` is not supported");
@@ -226,7 +224,9 @@ impl<P: PackedField> ComputeMemory<P::Scalar> for PackedMemory<P> {
 }
 
 impl<P: PackedField> PackedMemory<P> {
-	fn to_packed_range(len: usize, range: impl RangeBounds<usize>) -> (usize, usize) {
+	/// Converts a range of scalars to a range of packed elements, or returns `None` for the whole
+	/// range.
+	fn to_packed_range(len: usize, range: impl RangeBounds<usize>) -> Option<(usize, usize)> {
 		let start = match range.start_bound() {
 			Bound::Included(&start) => start,
 			Bound::Excluded(&start) => start + P::WIDTH,
@@ -239,12 +239,12 @@ impl<P: PackedField> PackedMemory<P> {
 		};
 
 		if (start, end) == (0, len) {
-			(0, len)
+			None
 		} else {
 			assert_eq!(start % P::WIDTH, 0, "start must be a multiple of {}", P::WIDTH);
 			assert_eq!(end % P::WIDTH, 0, "end must be a multiple of {}", P::WIDTH);
 
-			(start >> P::LOG_WIDTH, end >> P::LOG_WIDTH)
+			Some((start >> P::LOG_WIDTH, end >> P::LOG_WIDTH))
 		}
 	}
 }
-- 
2.43.0


From 839df363c4ca2eb430ce452c056177259f340c33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:31 +0000
Subject: [PATCH 27/52] fix: copy slices shorter than a packed element to the
 device

---
 crates/fast_compute/src/layer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/fast_compute/src/layer.rs b/crates/fast_compute/src/layer.rs
index 98794fc..cc04e1f 100644
--- a/crates/fast_compute/src/layer.rs
+++ b/crates/fast_compute/src/layer.rs
@@ -92,7 +92,7 @@ impl<T: TowerFamily, P: PackedTop<T>> ComputeLayer<T::B128> for FastCpuLayer<T,
 				Ok(())
 			},
 			|packed| {
-				src.par_chunks_exact(P::WIDTH)
+				src.par_chunks(P::WIDTH)
 					.zip(packed.par_iter_mut())
 					.for_each(|(input, output)| {
 						*output = PackedField::from_scalars(input.iter().copied());
-- 
2.43.0


From 084f2e9704ceb20ff8e14d8f7cb5af253a9c38a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:31 +0000
Subject: [PATCH 28/52] fix: report tower levels above the field in the fast
 compute layer

---
 crates/fast_compute/src/layer.rs | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/crates/fast_compute/src/layer.rs b/crates/fast_compute/src/layer.rs
index cc04e1f..b3daceb 100644
--- a/crates/fast_compute/src/layer.rs
+++ b/crates/fast_compute/src/layer.rs
@@ -20,7 +20,7 @@ use binius_compute::{
 use binius_field::{
 	AESTowerField8b, AESTowerField128b, BinaryField8b, BinaryField128b, ByteSlicedUnderlier,
 	ExtensionField, Field, PackedBinaryField1x128b, PackedBinaryField2x128b,
-	PackedBinaryField4x128b, PackedExtension, PackedField,
+	PackedBinaryField4x128b, PackedExtension, PackedField, TowerField,
 	as_packed_field::{PackScalar, PackedType},
 	linear_transformation::{PackedTransformationFactory, Transformation},
 	make_aes_to_binary_packed_transformer, make_binary_to_aes_packed_transformer,
@@ -312,6 +312,14 @@ impl<'a, T: TowerFamily, P: PackedTop<T>> ComputeLayerExecutor<T::B128>
 		a_in: SubfieldSlice<'_, T::B128, Self::DevMem>,
 		b_in: <Self::DevMem as ComputeMemory<T::B128>>::FSlice<'_>,
 	) -> Result<Self::OpValue, Error> {
+		if a_in.tower_level > T::B128::TOWER_LEVEL {
+			return Err(Error::InputValidation(format!(
+				"invalid tower level: {} > {}",
+				a_in.tower_level,
+				T::B128::TOWER_LEVEL
+			)));
+		}
+
 		if a_in.slice.len() << (<T::B128 as ExtensionField<T::B1>>::LOG_DEGREE - a_in.tower_level)
 			!= b_in.len()
 		{
@@ -391,6 +399,14 @@ impl<'a, T: TowerFamily, P: PackedTop<T>> ComputeLayerExecutor<T::B128>
 		vec: <Self::DevMem as ComputeMemory<T::B128>>::FSlice<'_>,
 		out: &mut <Self::DevMem as ComputeMemory<T::B128>>::FSliceMut<'_>,
 	) -> Result<(), Error> {
+		if mat.tower_level > T::B128::TOWER_LEVEL {
+			return Err(Error::InputValidation(format!(
+				"invalid tower level: {} > {}",
+				mat.tower_level,
+				T::B128::TOWER_LEVEL
+			)));
+		}
+
 		let log_evals_size = strict_log_2(mat.len()).ok_or_else(|| {
 			Error::InputValidation("the length of `mat` must be a power of 2".to_string())
 		})?;
@@ -433,6 +449,14 @@ impl<'a, T: TowerFamily, P: PackedTop<T>> ComputeLayerExecutor<T::B128>
 		vec: <Self::DevMem as binius_compute::memory::ComputeMemory<T::B128>>::FSlice<'_>,
 		out: &mut <Self::DevMem as binius_compute::memory::ComputeMemory<T::B128>>::FSliceMut<'_>,
 	) -> Result<(), Error> {
+		if mat.tower_level > T::B128::TOWER_LEVEL {
+			return Err(Error::InputValidation(format!(
+				"invalid tower level: {} > {}",
+				mat.tower_level,
+				T::B128::TOWER_LEVEL
+			)));
+		}
+
 		let log_evals_size = strict_log_2(mat.len()).ok_or_else(|| {
 			Error::InputValidation("the length of `mat` must be a power of 2".to_string())
 		})?;
-- 
2.43.0


From eda47e0ddb2d225096e92e4f4e8d9c71c6388f5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:31 +0000
Subject: [PATCH 29/52] fix: keep the number of variables of compiled
 expressions

---
 crates/fast_compute/src/layer.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/fast_compute/src/layer.rs b/crates/fast_compute/src/layer.rs
index b3daceb..be62622 100644
--- a/crates/fast_compute/src/layer.rs
+++ b/crates/fast_compute/src/layer.rs
@@ -157,7 +157,10 @@ impl<T: TowerFamily, P: PackedTop<T>> ComputeLayer<T::B128> for FastCpuLayer<T,
 		&self,
 		expr: &ArithCircuit<T::B128>,
 	) -> Result<<Self::Exec<'_> as ComputeLayerExecutor<T::B128>>::ExprEval, Error> {
-		let expr = ArithCircuitPoly::new(expr.clone());
+		// The number of variables is that of the given expression, some of which may be gone after
+		// optimization.
+		let expr = ArithCircuitPoly::with_n_vars(expr.n_vars(), expr.clone())
+			.expect("optimization does not introduce variables");
 		Ok(expr)
 	}
 
-- 
2.43.0


From bfa5a1fa72bbd67d076bc8b1233f0aee2d300cbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:31 +0000
Subject: [PATCH 30/52] fix: validate sizes and fold the input in the fast
 fri_fold

---
 crates/fast_compute/src/layer.rs | 29 +++++++++++++++++++++++++----
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/crates/fast_compute/src/layer.rs b/crates/fast_compute/src/layer.rs
index be62622..aaf9f6f 100644
--- a/crates/fast_compute/src/layer.rs
+++ b/crates/fast_compute/src/layer.rs
@@ -507,6 +507,28 @@ impl<'a, T: TowerFamily, P: PackedTop<T>> ComputeLayerExecutor<T::B128>
 		FSub: binius_field::BinaryField,
 		T::B128: binius_field::ExtensionField<FSub>,
 	{
+		if data_in.len() != 1 << (log_len + log_batch_size) {
+			return Err(Error::InputValidation(format!(
+				"invalid data_in length: {}",
+				data_in.len()
+			)));
+		}
+
+		if challenges.len() < log_batch_size || challenges.len() > log_batch_size + log_len {
+			return Err(Error::InputValidation(format!(
+				"invalid challenges length: {}",
+				challenges.len()
+			)));
+		}
+
+		let out_len = 1 << (log_len - (challenges.len() - log_batch_size));
+		if data_out.len() != out_len {
+			return Err(Error::InputValidation(format!(
+				"invalid data_out length: {}",
+				data_out.len()
+			)));
+		}
+
 		unpack_if_possible_mut(
 			data_out.as_slice_mut(),
 			|out| {
@@ -516,15 +538,14 @@ impl<'a, T: TowerFamily, P: PackedTop<T>> ComputeLayerExecutor<T::B128>
 					challenges,
 					log_len,
 					log_batch_size,
-					out,
+					&mut out[..out_len],
 				);
 			},
 			|packed| {
-				let mut out_scalars =
-					zeroed_vec(1 << (log_len - (challenges.len() - log_batch_size)));
+				let mut out_scalars = zeroed_vec(out_len);
 				fold_interleaved_allocated(
 					ntt,
-					packed,
+					data_in.as_slice(),
 					challenges,
 					log_len,
 					log_batch_size,
-- 
2.43.0


From c6f52ae39a4cc972777051742872468961b942ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:56 +0000
Subject: [PATCH 31/52] fix: fold codewords packed wider than the folded chunks

---
 crates/ntt/src/fri.rs | 31 +++++++++++++++++++++++++++++--
 1 file changed, 29 insertions(+), 2 deletions(-)

diff --git a/crates/ntt/src/fri.rs b/crates/ntt/src/fri.rs
index 58e0888..153f9f6 100644
--- a/crates/ntt/src/fri.rs
+++ b/crates/ntt/src/fri.rs
@@ -2,7 +2,9 @@
 
 use std::iter;
 
-use binius_field::{BinaryField, ExtensionField, PackedField};
+use binius_field::{
+	BinaryField, ExtensionField, PackedField, packed::iter_packed_slice_with_offset,
+};
 use binius_math::{MultilinearQuery, extrapolate_line_scalar};
 use binius_maybe_rayon::prelude::*;
 use bytemuck::zeroed_vec;
@@ -42,10 +44,35 @@ pub fn fold_interleaved_allocated<F, FS, NTT, P>(
 	assert_eq!(out.len(), 1 << (log_len - (challenges.len() - log_batch_size)));
 
 	let (interleave_challenges, fold_challenges) = challenges.split_at(log_batch_size);
-	let tensor = MultilinearQuery::expand(interleave_challenges);
 
 	// For each chunk of size `2^chunk_size` in the codeword, fold it with the folding challenges
 	let fold_chunk_size = 1 << fold_challenges.len();
+
+	if challenges.len() < P::LOG_WIDTH || (log_batch_size > 0 && log_batch_size < P::LOG_WIDTH) {
+		// A packed element holds several chunks or several batches: fold scalar by scalar.
+		let tensor = MultilinearQuery::<F>::expand(interleave_challenges);
+		out.par_iter_mut().enumerate().for_each_init(
+			|| vec![F::default(); fold_chunk_size],
+			|scratch_buffer, (i, out)| {
+				let chunk = iter_packed_slice_with_offset(codeword, i << challenges.len())
+					.take(1 << challenges.len())
+					.collect::<Vec<_>>();
+				*out = fold_interleaved_chunk(
+					ntt,
+					log_len,
+					log_batch_size,
+					i,
+					&chunk,
+					tensor.expansion(),
+					fold_challenges,
+					scratch_buffer,
+				)
+			},
+		);
+		return;
+	}
+
+	let tensor = MultilinearQuery::<P>::expand(interleave_challenges);
 	let chunk_size = 1 << challenges.len().saturating_sub(P::LOG_WIDTH);
 	codeword
 		.par_chunks(chunk_size)
-- 
2.43.0


From cd438e5de686dee6a3d8cfc525fd59633e3f6959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:56 +0000
Subject: [PATCH 32/52] fix: chunk packed rows in the fast compute_composite

---
 crates/fast_compute/src/layer.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/crates/fast_compute/src/layer.rs b/crates/fast_compute/src/layer.rs
index aaf9f6f..3521c81 100644
--- a/crates/fast_compute/src/layer.rs
+++ b/crates/fast_compute/src/layer.rs
@@ -620,9 +620,10 @@ impl<'a, T: TowerFamily, P: PackedTop<T>> ComputeLayerExecutor<T::B128>
 
 		let log_chunks = get_log_max_threads() + 1;
 
-		let chunk_size = (output.len() >> log_chunks).max(1);
+		// Rows shorter than a packed element take one packed element.
+		let packed_row_len = output.as_slice().len();
 
-		let packed_row_len = checked_int_div(inputs.row_len(), P::WIDTH);
+		let chunk_size = (packed_row_len >> log_chunks).max(1);
 
 		let rows_batch = unsafe { RowsBatchRef::new_unchecked(&rows, packed_row_len) };
 
@@ -632,7 +633,7 @@ impl<'a, T: TowerFamily, P: PackedTop<T>> ComputeLayerExecutor<T::B128>
 			.enumerate()
 			.for_each(|(chunk_idx, output_chunk)| {
 				let offset = chunk_idx * chunk_size;
-				let rows = rows_batch.columns_subrange(offset..offset + chunk_size);
+				let rows = rows_batch.columns_subrange(offset..offset + output_chunk.len());
 
 				composition
 					.batch_evaluate(&rows, output_chunk)
-- 
2.43.0


From 6ccb00ee2143c49b29d066fdb74322a5d889e90c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:38:35 +0000
Subject: [PATCH 33/52] fix: implement pairwise_product_reduce in the fast
 compute layer

---
 crates/fast_compute/src/layer.rs | 47 +++++++++++++++++++++++++++++---
 1 file changed, 43 insertions(+), 4 deletions(-)

diff --git a/crates/fast_compute/src/layer.rs b/crates/fast_compute/src/layer.rs
index 3521c81..f242c80 100644
--- a/crates/fast_compute/src/layer.rs
+++ b/crates/fast_compute/src/layer.rs
@@ -673,11 +673,50 @@ impl<'a, T: TowerFamily, P: PackedTop<T>> ComputeLayerExecutor<T::B128>
 
 	fn pairwise_product_reduce(
 		&mut self,
-		_input: <Self::DevMem as ComputeMemory<T::B128>>::FSlice<'_>,
-		_round_outputs: &mut [<Self::DevMem as ComputeMemory<T::B128>>::FSliceMut<'_>],
+		input: <Self::DevMem as ComputeMemory<T::B128>>::FSlice<'_>,
+		round_outputs: &mut [<Self::DevMem as ComputeMemory<T::B128>>::FSliceMut<'_>],
 	) -> Result<(), Error> {
-		// TODO(CRY-490)
-		todo!()
+		let log_num_inputs = match strict_log_2(input.len()) {
+			None | Some(0) => {
+				return Err(Error::InputValidation(format!(
+					"input length must be a power of 2 greater than or equal to 2: {}",
+					input.len()
+				)));
+			}
+			Some(log_num_inputs) => log_num_inputs,
+		};
+		if round_outputs.len() != log_num_inputs {
+			return Err(Error::InputValidation(format!(
+				"round_outputs.len() does not match the expected length: {} != {log_num_inputs}",
+				round_outputs.len()
+			)));
+		}
+		for (round_idx, round_output) in round_outputs.iter().enumerate() {
+			let expected_output_size = 1usize << (log_num_inputs - round_idx - 1);
+			if round_output.len() != expected_output_size {
+				return Err(Error::InputValidation(format!(
+					"round_outputs[{round_idx}].len() = {}, expected {expected_output_size}",
+					round_output.len()
+				)));
+			}
+		}
+
+		let mut source = input.as_slice();
+		for round_output in round_outputs {
+			let output = round_output.as_slice_mut();
+			output.par_iter_mut().enumerate().for_each(|(i, output)| {
+				let pair_elem = |j: usize, parity: usize| {
+					let index = 2 * (i * P::WIDTH + j) + parity;
+					source
+						.get(index >> P::LOG_WIDTH)
+						.map_or(T::B128::ZERO, |packed| packed.get(index & (P::WIDTH - 1)))
+				};
+				*output = P::from_fn(|j| pair_elem(j, 0)) * P::from_fn(|j| pair_elem(j, 1));
+			});
+			source = output;
+		}
+
+		Ok(())
 	}
 }
 
-- 
2.43.0


From caa9aa75776c95ae0565adc62d975b9f5d0bb8f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:39:48 +0000
Subject: [PATCH 34/52] fix: check the output length of folds in the fast
 compute layer

---
 crates/fast_compute/src/layer.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/crates/fast_compute/src/layer.rs b/crates/fast_compute/src/layer.rs
index f242c80..b6b9d67 100644
--- a/crates/fast_compute/src/layer.rs
+++ b/crates/fast_compute/src/layer.rs
@@ -416,6 +416,14 @@ impl<'a, T: TowerFamily, P: PackedTop<T>> ComputeLayerExecutor<T::B128>
 		let log_query_size = strict_log_2(vec.len()).ok_or_else(|| {
 			Error::InputValidation("the length of `vec` must be a power of 2".to_string())
 		})?;
+		if mat.len() != vec.len() * out.len() {
+			return Err(Error::InputValidation(format!(
+				"the length of `mat` is {}, expected {} * {}",
+				mat.len(),
+				vec.len(),
+				out.len()
+			)));
+		}
 
 		let out = binius_utils::mem::slice_uninit_mut(out.as_slice_mut());
 
@@ -466,6 +474,14 @@ impl<'a, T: TowerFamily, P: PackedTop<T>> ComputeLayerExecutor<T::B128>
 		let log_query_size = strict_log_2(vec.len()).ok_or_else(|| {
 			Error::InputValidation("the length of `vec` must be a power of 2".to_string())
 		})?;
+		if mat.len() != vec.len() * out.len() {
+			return Err(Error::InputValidation(format!(
+				"the length of `mat` is {}, expected {} * {}",
+				mat.len(),
+				vec.len(),
+				out.len()
+			)));
+		}
 
 		fn fold_right<FSub: Field, P: PackedExtension<FSub>>(
 			mat: &[P],
-- 
2.43.0


From 90abbaa6ca0dfe62c7a741bf424cd1bc99f67dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:04:51 +0000
Subject: [PATCH 35/52] fix: reject fold arities that the FRI protocol cannot
 run

---
 crates/core/src/protocols/fri/common.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/crates/core/src/protocols/fri/common.rs b/crates/core/src/protocols/fri/common.rs
index 7cb6b78..8765b38 100644
--- a/crates/core/src/protocols/fri/common.rs
+++ b/crates/core/src/protocols/fri/common.rs
@@ -47,6 +47,15 @@ where
 		if fold_arities.iter().sum::<usize>() >= rs_code.log_dim() + log_batch_size {
 			bail!(Error::InvalidFoldAritySequence)
 		}
+		if let Some(index) = fold_arities.iter().position(|&arity| arity == 0) {
+			bail!(Error::FoldArityIsZero { index })
+		}
+		if fold_arities
+			.first()
+			.is_some_and(|&arity| arity < log_batch_size)
+		{
+			bail!(Error::FirstFoldArityTooSmall)
+		}
 
 		Ok(Self {
 			rs_code,
-- 
2.43.0


From 8a6a4c1083b8be8b0764c3ffc9ad00aaab6b58cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:04:51 +0000
Subject: [PATCH 36/52] fix: no number of FRI queries is sufficient for a code
 of rate 1

---
 crates/core/src/protocols/fri/common.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/core/src/protocols/fri/common.rs b/crates/core/src/protocols/fri/common.rs
index 8765b38..eab6ed8 100644
--- a/crates/core/src/protocols/fri/common.rs
+++ b/crates/core/src/protocols/fri/common.rs
@@ -220,7 +220,8 @@ where
 	// 2^{ℓ' + R} / |T_{τ}|
 	let per_query_err = 0.5 * (1f64 + 2.0f64.powi(-(code.log_inv_rate() as i32)));
 	let allowed_query_err = 2.0_f64.powi(-(security_bits as i32)) - sumcheck_err - folding_err;
-	if allowed_query_err <= 0.0 {
+	// A code of rate 1 detects nothing, however many queries are made.
+	if allowed_query_err <= 0.0 || per_query_err >= 1.0 {
 		return Err(Error::ParameterError);
 	}
 	let n_queries = allowed_query_err.log(per_query_err).ceil() as usize;
-- 
2.43.0


From 6645cf06506fd0edef18375b4da029ad90d92cf6 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 14:07:24 +0000
Subject: [PATCH 37/52] fix: give the zerocheck domain at least two points

A zerocheck prover whose compositions all have degree 1, without skipped rounds, asked
for an evaluation domain of one point, which does not exist, and panicked.
---
 crates/core/src/protocols/sumcheck/prove/univariate.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/core/src/protocols/sumcheck/prove/univariate.rs b/crates/core/src/protocols/sumcheck/prove/univariate.rs
index 656fc59..4bb53c2 100644
--- a/crates/core/src/protocols/sumcheck/prove/univariate.rs
+++ b/crates/core/src/protocols/sumcheck/prove/univariate.rs
@@ -280,8 +280,9 @@ where
 		bail!(MathError::DomainSizeTooLarge);
 	}
 
-	// Only a domain size NTT is needed.
-	let fdomain_ntt = SingleThreadedNTT::<FDomain>::with_canonical_field(min_domain_bits)
+	// Only a domain size NTT is needed. The NTT has a domain of at least two points, even when the
+	// round polynomial is determined by a single one.
+	let fdomain_ntt = SingleThreadedNTT::<FDomain>::with_canonical_field(min_domain_bits.max(1))
 		.expect("FDomain cardinality checked before")
 		.precompute_twiddles();
 
-- 
2.43.0


From 6a27a262f3abd5c733dcc1c58a9b6453e115ff59 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 14:07:24 +0000
Subject: [PATCH 38/52] fix: project the last variables of the projected oracle

ProjectionVariant::Last subtracted the number of values from the variables of the
projection instead of those of the oracle it projects, so it projected other variables
or underflowed.
---
 crates/core/src/oracle/symbolic.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/crates/core/src/oracle/symbolic.rs b/crates/core/src/oracle/symbolic.rs
index 04993cb..8292ee0 100644
--- a/crates/core/src/oracle/symbolic.rs
+++ b/crates/core/src/oracle/symbolic.rs
@@ -269,7 +269,13 @@ fn instantiate_oracle_variant<F: TowerField>(
 		} => {
 			let start_index = match variant {
 				ProjectionVariant::Offset(offset) => *offset,
-				ProjectionVariant::Last => n_vars - values.len(),
+				ProjectionVariant::Last => mos
+					.n_vars(*id)
+					.checked_sub(values.len())
+					.ok_or_else(|| Error::InvalidProjection {
+						n_vars: mos.n_vars(*id),
+						values_len: values.len(),
+					})?,
 			};
 			let projected = Projected::new(mos, *id, values.clone(), start_index)?;
 			Sized::Projected(projected)
-- 
2.43.0


From 08d1640d97dcb1e395e4a6cdf592373198293320 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 14:07:24 +0000
Subject: [PATCH 39/52] fix: compare every value of zero-padded columns in
 witness validation

Only the first 2^n_pad_vars of the 2^n_vars values were compared.
---
 crates/core/src/constraint_system/validate.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/core/src/constraint_system/validate.rs b/crates/core/src/constraint_system/validate.rs
index b1644cf..75fa1d7 100644
--- a/crates/core/src/constraint_system/validate.rs
+++ b/crates/core/src/constraint_system/validate.rs
@@ -259,7 +259,7 @@ where
 			let start_index = padded.start_index();
 			let nonzero_index = padded.nonzero_index();
 			let padded_poly = unpadded_poly.zero_pad(n_pad_vars, start_index, nonzero_index)?;
-			for i in 0..1 << n_pad_vars {
+			for i in 0..1 << n_vars {
 				check_eval(
 					oracle_label,
 					i,
-- 
2.43.0


From 43bfa88890264dc3134bba329d8158d60e98f233 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 14:07:24 +0000
Subject: [PATCH 40/52] fix: report channel 0 of a system without channels as
 out of range

---
 crates/core/src/constraint_system/channel.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/core/src/constraint_system/channel.rs b/crates/core/src/constraint_system/channel.rs
index 5c9a455..6031d02 100644
--- a/crates/core/src/constraint_system/channel.rs
+++ b/crates/core/src/constraint_system/channel.rs
@@ -112,7 +112,7 @@ where
 			direction,
 			multiplicity,
 		} = boundary;
-		if channel_id > max_channel_id {
+		if channel_id >= channel_count {
 			return Err(Error::ChannelIdOutOfRange {
 				max: max_channel_id,
 				got: channel_id,
@@ -132,7 +132,7 @@ where
 			log_values_per_row,
 		} = flush;
 
-		if channel_id > max_channel_id {
+		if channel_id >= channel_count {
 			return Err(Error::ChannelIdOutOfRange {
 				max: max_channel_id,
 				got: channel_id,
-- 
2.43.0


From 1b520f4d632cdb8ce59661d5de605a0e553e796c Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 14:07:24 +0000
Subject: [PATCH 41/52] fix: count multiplicities of any u64 in the channel
 balance

A multiplicity above i64::MAX was counted as a negative one, so that it could balance.
---
 crates/core/src/constraint_system/channel.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/crates/core/src/constraint_system/channel.rs b/crates/core/src/constraint_system/channel.rs
index 6031d02..ab3824d 100644
--- a/crates/core/src/constraint_system/channel.rs
+++ b/crates/core/src/constraint_system/channel.rs
@@ -226,7 +226,7 @@ where
 			let unbalanced_flushes: Vec<_> = channel
 				.multiplicities
 				.iter()
-				.filter(|(_, c)| **c != 0i64)
+				.filter(|(_, c)| **c != 0)
 				.collect();
 
 			tracing::debug!("Channel {:?} unbalanced: {:?}", id, unbalanced_flushes);
@@ -241,7 +241,7 @@ where
 #[derive(Default, Debug, Clone)]
 struct Channel<F: TowerField> {
 	width: Option<usize>,
-	multiplicities: HashMap<Vec<F>, i64>,
+	multiplicities: HashMap<Vec<F>, i128>,
 }
 
 impl<F: TowerField> Channel<F> {
@@ -271,10 +271,10 @@ impl<F: TowerField> Channel<F> {
 				got: values.len(),
 			});
 		}
-		*self.multiplicities.entry(values).or_default() += (multiplicity as i64)
+		*self.multiplicities.entry(values).or_default() += i128::from(multiplicity)
 			* (match direction {
-				FlushDirection::Pull => -1i64,
-				FlushDirection::Push => 1i64,
+				FlushDirection::Pull => -1,
+				FlushDirection::Push => 1,
 			});
 		Ok(())
 	}
-- 
2.43.0


From a0a76e98460aa47d637bb97e6d3de7480a8e9039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:13:09 +0000
Subject: [PATCH 42/52] fix: keep 1 as the first element of the basis of
 BinaryField128bPolyval

The evaluation domains of the provers start with 0 and 1, which they take from the
subspace spanned by this basis. This restores the basis that an earlier fix had changed;
from_bases stays the inverse of iter_bases.
---
 crates/field/src/polyval.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/field/src/polyval.rs b/crates/field/src/polyval.rs
index 03f991e..4387975 100644
--- a/crates/field/src/polyval.rs
+++ b/crates/field/src/polyval.rs
@@ -426,7 +426,7 @@ impl ExtensionField<BinaryField1b> for BinaryField128bPolyval {
 		if i >= 128 {
 			return Err(Error::ExtensionDegreeMismatch);
 		}
-		Ok(Self(1 << i))
+		Ok(Self::new(1 << i))
 	}
 
 	#[inline]
-- 
2.43.0


From 345e73419003d1f36f9f7401d3de0639f17a1091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:16:32 +0000
Subject: [PATCH 43/52] fix: check the balance of every channel in the verifier

The verifier looked only at channels that some flush of a nonempty table writes to, so
boundary values on other channels were accepted unbalanced (a prover could make them
so by choosing empty tables). A boundary on a channel that does not exist is an error.
---
 crates/core/src/constraint_system/verify.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/crates/core/src/constraint_system/verify.rs b/crates/core/src/constraint_system/verify.rs
index 4217533..5758e36 100644
--- a/crates/core/src/constraint_system/verify.rs
+++ b/crates/core/src/constraint_system/verify.rs
@@ -316,13 +316,21 @@ fn verify_channels_balance<F: TowerField>(
 		return Err(VerificationError::IncorrectNumberOfFlushProducts.into());
 	}
 
+	for boundary in boundaries {
+		if boundary.channel_id >= permutation_challenges.len() {
+			return Err(Error::ChannelIdOutOfRange {
+				max: permutation_challenges.len().saturating_sub(1),
+				got: boundary.channel_id,
+			});
+		}
+	}
+
 	let mut flush_iter = flushes
 		.iter()
 		.zip(flush_products.iter().copied())
 		.peekable();
-	while let Some((flush, _)) = flush_iter.peek() {
-		let channel_id = flush.channel_id;
-
+	// Every channel is checked, including those that no flush of a nonempty table writes to.
+	for channel_id in 0..permutation_challenges.len() {
 		let boundary_products =
 			boundaries
 				.iter()
-- 
2.43.0


From 91efdd08c83f644d4afe92daeb6ecd69c870fd0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:18:02 +0000
Subject: [PATCH 44/52] fix: refuse tuples of different widths on one channel
 in the verifier

Mixing does not distinguish a tuple from the same tuple extended by zeros, so that the
verifier took them as balancing each other, unlike witness validation.
---
 crates/core/src/constraint_system/verify.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/crates/core/src/constraint_system/verify.rs b/crates/core/src/constraint_system/verify.rs
index 5758e36..c508e76 100644
--- a/crates/core/src/constraint_system/verify.rs
+++ b/crates/core/src/constraint_system/verify.rs
@@ -331,6 +331,22 @@ fn verify_channels_balance<F: TowerField>(
 		.peekable();
 	// Every channel is checked, including those that no flush of a nonempty table writes to.
 	for channel_id in 0..permutation_challenges.len() {
+		// Mixing does not distinguish a tuple from the same tuple extended by zeros.
+		let boundary_widths = boundaries
+			.iter()
+			.filter(|boundary| boundary.channel_id == channel_id)
+			.map(|boundary| boundary.values.len());
+		let flush_widths = flushes
+			.iter()
+			.filter(|flush| flush.channel_id == channel_id)
+			.map(|flush| flush.oracles.len());
+		if let Some((expected, got)) = chain!(boundary_widths, flush_widths)
+			.tuple_windows()
+			.find(|(expected, got)| expected != got)
+		{
+			return Err(Error::ChannelFlushWidthMismatch { expected, got });
+		}
+
 		let boundary_products =
 			boundaries
 				.iter()
-- 
2.43.0


From eb0e623b97852da7734990f14abf5fbe2e81df8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:20:41 +0000
Subject: [PATCH 45/52] fix: prove flushes of columns that are also selectors

Such a column was converted only up to its nonzero prefix, and the prover panicked.
---
 crates/core/src/constraint_system/prove.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/core/src/constraint_system/prove.rs b/crates/core/src/constraint_system/prove.rs
index a9c873b..77b967d 100644
--- a/crates/core/src/constraint_system/prove.rs
+++ b/crates/core/src/constraint_system/prove.rs
@@ -726,7 +726,10 @@ where
 	let fast_inner_oracles =
 		convert_witnesses_to_fast_ext::<U, Tower>(oracles, witness_index, &inner_oracles_id)?;
 
-	for ((n_vars, witness_data), id) in fast_inner_oracles.into_iter().zip(inner_oracles_id) {
+	for ((n_vars, mut witness_data), id) in fast_inner_oracles.into_iter().zip(inner_oracles_id) {
+		// A flushed oracle that is also a selector has been converted up to its nonzero prefix.
+		let log_width = <PackedType<U, FFastExt<Tower>>>::LOG_WIDTH;
+		witness_data.resize(1 << n_vars.saturating_sub(log_width), PackedField::zero());
 		let fast_witness = MLEDirectAdapter::from(
 			MultilinearExtension::new(n_vars, witness_data)
 				.expect("witness_data created with correct n_vars"),
-- 
2.43.0


From cbcc1ec0e2305ebddefd18c30a8dd32490648937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:24:12 +0000
Subject: [PATCH 46/52] fix: reject duplicate-claim hints that name no claim

The index of the hint comes from the proof; the evalcheck verifier panicked
on an index beyond the claims of the round.
---
 crates/core/src/protocols/evalcheck/verify.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/crates/core/src/protocols/evalcheck/verify.rs b/crates/core/src/protocols/evalcheck/verify.rs
index 93d8cb9..cdddcf5 100644
--- a/crates/core/src/protocols/evalcheck/verify.rs
+++ b/crates/core/src/protocols/evalcheck/verify.rs
@@ -328,13 +328,12 @@ impl<'a, F: TowerField> EvalcheckVerifier<'a, F> {
 		match subproof {
 			EvalcheckHint::DuplicateClaim(index) => {
 				let index = index as usize;
-				if self.round_claims[index].id != oracle_id
-					|| self.round_claims[index].eval_point != eval_point
-				{
-					return Err(VerificationError::DuplicateClaimMismatch.into());
+				match self.round_claims.get(index) {
+					Some(claim) if claim.id == oracle_id && claim.eval_point == eval_point => {
+						Ok(claim.eval)
+					}
+					_ => Err(VerificationError::DuplicateClaimMismatch.into()),
 				}
-
-				Ok(self.round_claims[index].eval)
 			}
 			EvalcheckHint::NewClaim => {
 				let eval = transcript.message().read_scalar()?;
-- 
2.43.0


From 76b705bfee7ce4f1642a28e697f00118ef938950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:25:49 +0000
Subject: [PATCH 47/52] fix: scale the offset of a nested linear combination in
 partial evaluations

try_build_partial_eval multiplied the summands of an inner linear combination
by its coefficient in the outer one, but not its offset.
---
 crates/core/src/protocols/evalcheck/subclaims.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/core/src/protocols/evalcheck/subclaims.rs b/crates/core/src/protocols/evalcheck/subclaims.rs
index 07b5818..0bf4a60 100644
--- a/crates/core/src/protocols/evalcheck/subclaims.rs
+++ b/crates/core/src/protocols/evalcheck/subclaims.rs
@@ -322,7 +322,7 @@ pub fn try_build_partial_eval<F: TowerField, P: PackedField<Scalar = F>>(
 			}
 
 			if lc.offset() != F::zero() {
-				let offset = P::broadcast(lc.offset());
+				let offset = P::broadcast(lc.offset()) * coeff;
 				for acc in acc.iter_mut() {
 					*acc += offset;
 				}
-- 
2.43.0


From 849668c499020568be1a834fa0edfea4886f7d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:26:55 +0000
Subject: [PATCH 48/52] fix: expand the prefixes of all points that end with a
 memoized suffix

A point that shares the suffix another point was split at is evaluated through
it, but its prefix was not expanded, and proving failed with MissingQuery.
---
 crates/core/src/protocols/evalcheck/prove.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/crates/core/src/protocols/evalcheck/prove.rs b/crates/core/src/protocols/evalcheck/prove.rs
index e1edb82..592379a 100644
--- a/crates/core/src/protocols/evalcheck/prove.rs
+++ b/crates/core/src/protocols/evalcheck/prove.rs
@@ -237,6 +237,15 @@ where
 			prefixes.insert(prefix);
 		}
 
+		// A point can also end with a suffix that another point was split at.
+		for (_, eval_point) in &self.claims_to_be_evaluated {
+			prefixes.extend(
+				self.suffixes
+					.iter()
+					.filter_map(|suffix| eval_point.try_get_prefix(suffix)),
+			);
+		}
+
 		let eval_points = chain!(&short, &suffixes, &prefixes)
 			.map(|p| p.as_ref())
 			.collect::<Vec<_>>();
-- 
2.43.0


From b5f5bdaa6aeb7685bf958bbb6b05c354e84f3a17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:32:05 +0000
Subject: [PATCH 49/52] fix: reject table sizes too small for a repeated oracle

The sizes come from the proof; instantiating the oracles underflowed, and the
verifier panicked, when a repeated column became shorter than its source.
---
 crates/core/src/oracle/symbolic.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/core/src/oracle/symbolic.rs b/crates/core/src/oracle/symbolic.rs
index 8292ee0..b8586a8 100644
--- a/crates/core/src/oracle/symbolic.rs
+++ b/crates/core/src/oracle/symbolic.rs
@@ -259,7 +259,9 @@ fn instantiate_oracle_variant<F: TowerField>(
 		}
 		Symbolic::Structured(arith_circuit) => Sized::Structured(arith_circuit.clone()),
 		Symbolic::Repeating { id } => {
-			let log_count = n_vars - mos.n_vars(*id);
+			let log_count = n_vars
+				.checked_sub(mos.n_vars(*id))
+				.ok_or(Error::IncorrectNumberOfVariables { expected: n_vars })?;
 			Sized::Repeating { id: *id, log_count }
 		}
 		Symbolic::Projected {
-- 
2.43.0


From 3f26225efdb6a0baf986afc708fb18f613dc3bef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:04:08 +0000
Subject: [PATCH 50/52] fix: constrain the first carry of WideAdd

---
 crates/m3/src/gadgets/add.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/m3/src/gadgets/add.rs b/crates/m3/src/gadgets/add.rs
index 63e3aa4..0f5c028 100644
--- a/crates/m3/src/gadgets/add.rs
+++ b/crates/m3/src/gadgets/add.rs
@@ -285,6 +285,10 @@ impl<UX: UnsignedAddPrimitives, const BIT_LENGTH: usize> WideAdd<UX, BIT_LENGTH>
 					.unwrap_or_else(|| table.add_committed("cin[0]"))
 			}
 		});
+		if flags.carry_in_bit.is_none() {
+			table.assert_zero("cin[0]", cin[0].into());
+		}
+
 		let zout = if flags.commit_zout {
 			let zout = table.add_committed_multiple("z_out");
 			for bit in 0..BIT_LENGTH {
-- 
2.43.0


From 9430aaac198a7e539f81b062da8e4443113c44b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:04:08 +0000
Subject: [PATCH 51/52] fix: constrain the borrows of WideSub

---
 crates/m3/src/gadgets/sub.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/crates/m3/src/gadgets/sub.rs b/crates/m3/src/gadgets/sub.rs
index 4c4158c..1c94368 100644
--- a/crates/m3/src/gadgets/sub.rs
+++ b/crates/m3/src/gadgets/sub.rs
@@ -197,6 +197,13 @@ impl<UX: UnsignedAddPrimitives, const BIT_LENGTH: usize> WideSub<UX, BIT_LENGTH>
 			}
 		});
 
+		for bit in 0..BIT_LENGTH {
+			table.assert_zero(
+				format!("borrow_out[{bit}]"),
+				(bin[bit] + (xin[bit] - B1::ONE)) * (bin[bit] + yin[bit]) + bin[bit] - bout[bit],
+			);
+		}
+
 		let final_borrow = flags.expose_final_borrow.then(|| bout[BIT_LENGTH - 1]);
 
 		let zout = if flags.commit_zout {
-- 
2.43.0


From 15793a4ec53e8bc35f116ce2f6b04f545edc0e82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:04:08 +0000
Subject: [PATCH 52/52] fix: allow negative exact divisions in DivSS32

---
 crates/m3/src/gadgets/div.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/crates/m3/src/gadgets/div.rs b/crates/m3/src/gadgets/div.rs
index 407955b..3ac27f8 100644
--- a/crates/m3/src/gadgets/div.rs
+++ b/crates/m3/src/gadgets/div.rs
@@ -6,7 +6,7 @@ use binius_field::{Field, PackedExtension, PackedField, packed::set_packed_slice
 use itertools::izip;
 
 use crate::{
-	builder::{B1, B32, B64, B128, Col, TableBuilder, TableWitnessSegment},
+	builder::{B1, B32, B64, B128, Col, TableBuilder, TableWitnessSegment, upcast_expr},
 	gadgets::{
 		add::{U32AddFlags, WideAdd},
 		mul::{MulSS32, MulUU32, SignConverter, UnsignedMulPrimitives},
@@ -193,7 +193,7 @@ impl DivUU32 {
 
 /// Gadget for signed division of two i32s.
 ///
-/// `p = q*a + r` where p and r have the same sign bit.
+/// `p = q*a + r` where p and r have the same sign bit, or r is zero.
 #[derive(Debug)]
 pub struct DivSS32 {
 	mul_inner: MulSS32,
@@ -229,9 +229,6 @@ impl DivSS32 {
 		let out_div_bits = table.add_committed_multiple("out_div_bits");
 		let out_rem_bits = table.add_committed_multiple("out_rem_bits");
 
-		// Check sign(p) == sign(r)
-		table.assert_zero("sign_dividend_eq_sign_rem", p_in_bits[31] - out_rem_bits[31]);
-
 		let sign_extend_q: [_; 64] =
 			array::from_fn(|i| if i < 32 { q_in_bits[i] } else { q_in_bits[31] });
 		let sign_extend_rem = array::from_fn(|i| {
@@ -245,6 +242,12 @@ impl DivSS32 {
 		let out_div = table.add_computed("out_div", pack_fp(out_div_bits));
 		let out_rem = table.add_computed("out_rem", pack_fp(out_rem_bits));
 
+		// Check sign(p) == sign(r), unless r is zero
+		table.assert_zero(
+			"sign_dividend_eq_sign_rem",
+			upcast_expr::<B32, _, 1>(p_in_bits[31] - out_rem_bits[31]) * out_rem,
+		);
+
 		let mul_inner = MulSS32::with_input(table, q_in_bits, out_div_bits);
 
 		// Check q is non-zero
-- 
2.43.0

