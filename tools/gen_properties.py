#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a generator so that ids stay stable and text stays readable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=list(observe), hook_needed=hook)))

p("C01", "Scalar field arithmetic is exact arithmetic in the defined binary fields",
  "For every pair of elements of every supported scalar field (the canonical tower fields of 1 to 128 bits, their AES-basis and POLYVAL counterparts), addition, subtraction, multiplication, squaring, multiplication by the tower generator, exponentiation and inversion return exactly the element that the field's definition prescribes. In particular results obey the field axioms, every non-zero element has an inverse and the inverse of zero is reported as absent (or as zero in the variant documented so), and products with a smaller-field operand equal the product with that operand embedded in the larger field.",
  ["inputs"], "all operands of all scalar field types and all mixed-field operand pairs",
  "Tests sample random or a few fixed operands per type; a 128-bit field has 2^256 operand pairs and special operands (zero, one, subfield elements, equal operands) have dedicated code paths.",
  ["crates/field/src/binary_field.rs", "crates/field/src/binary_field_arithmetic.rs", "crates/field/src/aes_field.rs", "crates/field/src/polyval.rs", "crates/field/src/field.rs", "crates/field/src/arch/portable", "crates/field/src/arch/x86_64"],
  [("tower multiplication / squaring / inversion", "crates/field/src/binary_field_arithmetic.rs"), ("operator macros for mixed-subfield products", "crates/field/src/binary_field.rs"), ("POLYVAL Montgomery arithmetic", "crates/field/src/polyval.rs")],
  ["Field, TowerField and operator trait implementations"])

p("C02", "Packed field arithmetic acts independently and exactly on every lane",
  "For every packed field type of every width and every vector of lane values, each arithmetic operation (add, subtract, multiply, square, inverse-or-zero, multiply by generator, exponentiation, scalar broadcasts and mixed-field products) produces in every lane exactly the scalar operation applied to that lane's operands. Which implementation is selected (table, recursive, bit-sliced, SIMD or byte-sliced) never changes the result.",
  ["inputs", "configurations"], "all packed types, widths and lane contents",
  "Tests draw random packed operands; wrong results confined to one lane position, to one operand pattern or to one of the many packing strategies can escape sampling.",
  ["crates/field/src/packed.rs", "crates/field/src/packed_binary_field.rs", "crates/field/src/packed_aes_field.rs", "crates/field/src/packed_polyval.rs", "crates/field/src/arch", "crates/field/src/arithmetic_traits.rs"],
  [("packed arithmetic strategies", "crates/field/src/arch/portable"), ("AVX2 / SSE implementations", "crates/field/src/arch/x86_64"), ("byte-sliced fields", "crates/field/src/arch/portable/byte_sliced")],
  ["PackedField operations, get(i) of each lane"])

p("C03", "Packed lane access and data movement preserve exactly the intended elements",
  "Reading, writing, iterating, broadcasting, interleaving, unzipping, spreading and packing lanes of packed field values move each element exactly to its documented position and leave every other lane unchanged, for every width, position and block size. Views of a buffer of packed values as scalars, as elements of a smaller or larger field, or as a square matrix to be transposed enumerate the same elements in the same documented order.",
  ["inputs", "configurations"], "all packed types, indices, block lengths, lengths and contents",
  "Tests use few widths, indices and random data; a misplaced lane at one block size or a tail element at one length is easily missed.",
  ["crates/field/src/packed.rs", "crates/field/src/underlier", "crates/field/src/transpose.rs", "crates/field/src/packed_extension.rs", "crates/field/src/packed_extension_ops.rs", "crates/field/src/byte_iteration.rs", "crates/field/src/arch"],
  [("PackedField::{get,set,interleave,unzip,spread,broadcast,from_fn,iter_slice}", "crates/field/src/packed.rs"), ("bit-level masks and shifts", "crates/field/src/underlier"), ("square_transpose", "crates/field/src/transpose.rs")],
  ["PackedField and PackedExtension APIs"])

p("C04", "Representation changes and basis maps are exact and structure preserving",
  "Converting elements between the canonical tower, AES-basis and POLYVAL representations is a bijection that preserves sums and products and is undone by the opposite conversion, for scalars and for packed values alike. Expressing an element over a subfield basis and recombining it, embedding a subfield element and projecting it back, and applying a linear transformation given by a matrix all agree with the linear algebra definition.",
  ["inputs", "configurations"], "all elements, all field pairs, all subfield levels, all linear maps",
  "Tests convert a few random elements; the maps are defined by large constant tables where a single wrong entry affects a small fraction of inputs.",
  ["crates/field/src/aes_field.rs", "crates/field/src/polyval.rs", "crates/field/src/extension.rs", "crates/field/src/binary_field.rs", "crates/field/src/linear_transformation.rs", "crates/field/src/tower.rs"],
  [("isomorphism tables and transformations", "crates/field/src/aes_field.rs"), ("basis / iter_bases / from_bases", "crates/field/src/extension.rs"), ("matrix-vector transformations", "crates/field/src/linear_transformation.rs")],
  ["From conversions, ExtensionField methods, Transformation::transform"])

p("C05", "Serialization round-trips and decoding untrusted bytes is total",
  "For every value the library can serialize (field elements, packed values, digests, containers, integers, strings, options, constraint systems and their parts, boundary values), decoding its encoding under the same mode yields an equal value and consumes exactly the bytes written, and distinct values have distinct encodings. Decoding any byte string either returns a value or an error: truncated input is always an error and no input makes the decoder panic or allocate without bound.",
  ["inputs"], "all values of all serializable types, all byte strings, both serialization modes",
  "Tests round-trip a few values; malformed lengths, invalid discriminants, truncation points and unusual sizes are an unbounded set.",
  ["crates/utils/src/serialization.rs", "crates/macros/src", "crates/field/src/binary_field.rs", "crates/hash/src/serialization.rs", "crates/core/src/constraint_system", "crates/math/src"],
  [("SerializeBytes / DeserializeBytes implementations", "crates/utils/src/serialization.rs"), ("derive macros", "crates/macros/src/lib.rs"), ("field element encodings per mode", "crates/field/src/binary_field.rs")],
  ["SerializeBytes::serialize, DeserializeBytes::deserialize"])

p("C06", "Prover and verifier transcripts agree and challenges bind the whole history",
  "Whatever sequence of messages, decommitments, observations, and challenge requests is made, the verifier reading the prover's proof bytes recovers exactly the written data and both sides draw identical challenges, and finishing accepts only if every byte of the proof was consumed. Every challenge is a deterministic function of the complete sequence of observed bytes and samples so far: any change of an observed byte changes later challenges, decommitments never influence them, and how bytes are split across calls does not matter.",
  ["inputs", "histories"], "all interleavings and lengths of writes, reads, observations and samples",
  "Tests replay a few fixed sequences; buffer-boundary lengths and interleavings of observing and sampling are unbounded.",
  ["crates/core/src/transcript", "crates/core/src/fiat_shamir"],
  [("HasherChallenger observe/sample buffers", "crates/core/src/fiat_shamir/hasher_challenger.rs"), ("transcript reader/writer", "crates/core/src/transcript/mod.rs")],
  ["ProverTranscript, VerifierTranscript, CanSample, CanSampleBits"])

p("C07", "Merkle openings verify exactly when they match the committed vector",
  "For every committed vector (any power-of-two length, leaf batch size and cap depth) the commitment is the hash tree root of the leaf digests, every honest opening, layer and full-vector check verifies, and each verification accepts if and only if recomputing the path or tree from the given data yields the committed digest. Malformed inputs (out-of-range index, wrong lengths, missing bytes) produce an error, and the declared proof size equals the number of bytes an opening needs.",
  ["inputs", "configurations"], "all vectors, indices, depths and adversarial proof contents",
  "Tests check a few sizes and that honest proofs pass; acceptance of a wrong digest at some index parity or depth is invisible to them.",
  ["crates/core/src/merkle_tree"],
  [("tree construction and branch/layer extraction", "crates/core/src/merkle_tree/binary_merkle_tree.rs"), ("verify_opening / verify_layer / verify_vector", "crates/core/src/merkle_tree/scheme.rs")],
  ["MerkleTreeProver, MerkleTreeScheme"])

p("C08", "The additive NTT evaluates polynomials and its inverse recovers them",
  "For every domain, transform size, interleaving/batching shape, coset and skipped-round setting, the forward transform of coefficients in the novel basis equals evaluation at the domain points in their documented order, and the inverse transform undoes it. All implementations (precomputed or on-the-fly twiddles, single- or multi-threaded, any packing width, any scalar extension, odd-size interpolation) give identical results, and Reed-Solomon encoding equals evaluating the message polynomial on the whole code domain.",
  ["inputs", "configurations"], "all transform sizes, shapes, cosets and data",
  "Tests compare variants against each other on a few shapes; shape, coset and packing combinations form a large product space and an error common to variants is not seen.",
  ["crates/ntt/src", "crates/core/src/reed_solomon"],
  [("twiddle factors / subspace polynomials", "crates/ntt/src/twiddle.rs"), ("single and multi-threaded transforms", "crates/ntt/src/single_threaded.rs"), ("odd-size interpolation", "crates/ntt/src/odd_interpolate.rs"), ("ReedSolomonCode", "crates/core/src/reed_solomon/reed_solomon.rs")],
  ["AdditiveNTT::{forward_transform,inverse_transform}, ReedSolomonCode encoders"])

p("C09", "FRI folding, queries and parameters follow the definition",
  "Folding an interleaved Reed-Solomon codeword by the prover, and folding any queried coset by the verifier, both equal evaluating the original message's multilinear at the folding challenges, for every parameter set, so an honest proof always verifies and yields the claimed final value. The verifier accepts a query exactly when every opened coset matches its commitment and each folded value matches the next round's opening or the terminate codeword, and derived parameters (query counts, arities, round counts) meet the requested security and sum to the message length.",
  ["inputs", "configurations"], "all parameter sets, messages, challenges and adversarial openings",
  "Tests run a few parameter sets with honest provers; verifier-side acceptance of inconsistent openings needs adversarial inputs.",
  ["crates/core/src/protocols/fri", "crates/ntt/src/fri.rs"],
  [("fold_chunk / fold_interleaved", "crates/ntt/src/fri.rs"), ("FRIFolder", "crates/core/src/protocols/fri/prove.rs"), ("FRIVerifier", "crates/core/src/protocols/fri/verify.rs"), ("FRIParams, query count", "crates/core/src/protocols/fri/common.rs")],
  ["FRIFolder, FRIVerifier::{verify,verify_query}"])

p("C10", "Sumcheck-family verifiers accept exactly the consistent transcripts",
  "For every batch of sumcheck or zerocheck claims (any numbers of variables, degrees, batching order) and every verifier challenge sequence, an honest prover's messages are accepted, and any message sequence is accepted only if every round polynomial sums to the running claim and the final multilinear evaluations, composed and batched, equal the final claim. The output evaluation point and evaluations are exactly those of the transcript, in the documented variable order, and malformed claims or messages yield errors.",
  ["inputs", "configurations"], "all claims, proof messages and challenges",
  "Tests run honest provers; which false messages are accepted is not sampled at all, and claim shapes are unbounded.",
  ["crates/core/src/protocols/sumcheck"],
  [("batch_verify", "crates/core/src/protocols/sumcheck/verify_sumcheck.rs"), ("front-loaded batch verifier", "crates/core/src/protocols/sumcheck/front_loaded.rs"), ("zerocheck / eq indicator reductions", "crates/core/src/protocols/sumcheck/zerocheck.rs"), ("provers", "crates/core/src/protocols/sumcheck/prove")],
  ["batch_verify, BatchVerifier, batch_verify_zerocheck, batch_prove"])

p("C11", "Grand-product and exponentiation reductions are complete and consistent",
  "For every witness, the grand-product argument's claimed product equals the product of all entries, and the exponentiation argument's output equals the generator or base raised to the bitwise exponent at every row; the honest proof verifies and reduces to the true evaluation of the witness multilinears at the returned points. A proof for a wrong product, wrong power or wrong layer evaluation is rejected or leads to a false reduced claim, never to a true one.",
  ["inputs", "configurations"], "all witnesses, batch shapes, exponent widths and adversarial messages",
  "Tests cover a few sizes with honest provers.",
  ["crates/core/src/protocols/gkr_gpa", "crates/core/src/protocols/gkr_exp"],
  [("GrandProductWitness / batch_prove / batch_verify", "crates/core/src/protocols/gkr_gpa"), ("exponentiation witness, prove, verify", "crates/core/src/protocols/gkr_exp")],
  ["gkr_gpa::{batch_prove,batch_verify}, gkr_exp::{batch_prove,batch_verify}"])

p("C12", "Evaluation claims reduce consistently for every kind of polynomial oracle",
  "For every oracle (committed, transparent, repeated, projected, shifted, packed, linear combination, zero-padded, composite) the value obtained from its definition on the hypercube, from its multilinear extension, and through the evaluation-claim reduction agree. An honest evaluation proof verifies and yields only true claims on committed polynomials, and a false evaluation claim is either rejected or yields at least one false claim.",
  ["inputs", "configurations"], "all oracle kinds and nestings, evaluation points and claimed values",
  "Tests cover a handful of oracle shapes with honest values; nestings and edge sizes (all-projected, full-width shift, zero padding) are unbounded.",
  ["crates/core/src/oracle", "crates/core/src/protocols/evalcheck", "crates/core/src/polynomial", "crates/core/src/witness.rs"],
  [("oracle arithmetic and validation", "crates/core/src/oracle"), ("EvalcheckProver / EvalcheckVerifier", "crates/core/src/protocols/evalcheck"), ("shift indicator", "crates/core/src/transparent/shift_ind.rs")],
  ["EvalcheckProver::prove, EvalcheckVerifier::verify, MultilinearOracleSet"])

p("C13", "Multilinear extension operations equal the interpolation definition",
  "For every multilinear polynomial (any number of variables, packing and embedding) full evaluation, partial evaluation of low or high variables, tensor expansion of a query point, subcube access, folding in either variable order, and prefix or piecewise constructions equal the sums over hypercube points weighted by the equality indicator. All storage forms (packed, embedded, borrowed, adapted, truncated) of the same polynomial behave identically, and invalid sizes or indices yield errors rather than wrong values.",
  ["inputs", "configurations"], "all polynomials, query points, start positions, packings and subfield embeddings",
  "Tests compare a few shapes; optimised special cases depend on field-pair, packing width and sizes smaller than one packed word.",
  ["crates/math/src/multilinear_extension.rs", "crates/math/src/multilinear_query.rs", "crates/math/src/tensor_prod_eq_ind.rs", "crates/math/src/fold.rs", "crates/math/src/mle_adapters.rs", "crates/math/src/piecewise_multilinear.rs"],
  [("tensor_prod_eq_ind", "crates/math/src/tensor_prod_eq_ind.rs"), ("fold_left / fold_right / fold_middle with lookup-table paths", "crates/math/src/fold.rs"), ("MultilinearPoly", "crates/math/src/multilinear.rs")],
  ["MultilinearExtension, MultilinearPoly, MultilinearQuery"])

p("C14", "Interpolation, matrices and subspaces satisfy their algebraic definitions",
  "For every evaluation domain and every list of values, univariate evaluation, interpolation to coefficients, and extrapolation (including points at infinity and single-line extrapolation) agree with the unique polynomial through the points. Matrix products and inverses satisfy the defining identities with singular matrices reported as such, and binary subspaces enumerate exactly the span of their basis in the documented order.",
  ["inputs"], "all domains, values, matrices and subspace dimensions",
  "Tests use random instances of a few sizes.",
  ["crates/math/src/univariate.rs", "crates/math/src/matrix.rs", "crates/math/src/binary_subspace.rs"],
  [("EvaluationDomain, InterpolationDomain, evaluate_univariate", "crates/math/src/univariate.rs"), ("Matrix::inverse_into", "crates/math/src/matrix.rs"), ("BinarySubspace", "crates/math/src/binary_subspace.rs")],
  ["public functions of the math crate"])

p("C15", "Rewriting or compiling an arithmetic expression never changes its value",
  "For every arithmetic expression and every assignment, evaluating it directly, after optimization, after conversion to a circuit or composition polynomial, after variable remapping, partial substitution or linear-normal-form extraction, and in packed or batched form, all yield the same value. The reported degree and variable count are correct upper bounds, and equality or deduplication of expressions never identifies two that differ in value.",
  ["inputs", "programs"], "all expressions and all assignments",
  "Tests check hand-written expressions; expression trees are unbounded and optimisations depend on particular subtrees (constants 0 and 1, repeated subterms, powers).",
  ["crates/math/src/arith_expr.rs", "crates/core/src/polynomial/arith_circuit.rs", "crates/core/src/composition", "crates/fast_compute/src/arith_circuit.rs"],
  [("ArithExpr / ArithCircuit transformations", "crates/math/src/arith_expr.rs"), ("ArithCircuitPoly evaluation", "crates/core/src/polynomial/arith_circuit.rs")],
  ["ArithExpr, ArithCircuit, CompositionPoly::{evaluate,batch_evaluate,degree,n_vars}"])

p("C16", "Transparent polynomials equal their definitions everywhere",
  "For every size, parameter and evaluation point, each transparent polynomial (constant, powers, equality indicator, step down/up, select row, shift indicators, tower basis, disjoint product, multilinear extension and ring-switching equality indicator) evaluates to the multilinear extension of its hypercube definition, and the materialised table used by provers holds exactly those hypercube values. Invalid parameters are rejected with an error.",
  ["inputs", "configurations"], "all parameters, sizes and points",
  "Tests sample a few parameters; boundary indices (0, 2^n, word-packed tails) are where definitions differ.",
  ["crates/core/src/transparent"],
  [("MultivariatePoly::evaluate implementations and multilinear_extension builders", "crates/core/src/transparent")],
  ["MultivariatePoly::evaluate, multilinear_extension"])

p("C17", "End-to-end proofs: valid statements verify, altered statements or proofs do not",
  "For every constraint system and witness that satisfies it, proving succeeds and the proof verifies against the same statement and boundaries. If the witness violates any constraint, channel balance, table size or boundary value, or if the verifier is given a different constraint system, boundary set, or a proof with any byte altered, removed or appended, verification fails; and no proof bytes make the verifier panic.",
  ["inputs", "programs", "configurations"], "all constraint systems, witnesses, boundaries, proofs and single alterations",
  "Tests mostly run honest proofs of fixed examples; rejection is sampled at a few hand-made points.",
  ["crates/core/src/constraint_system", "crates/core/src/protocols", "crates/core/src/piop", "crates/core/src/ring_switch", "crates/core/src/merkle_tree", "crates/core/src/transcript"],
  [("constraint_system::prove / verify", "crates/core/src/constraint_system"), ("statement digest absorption", "crates/core/src/constraint_system/verify.rs")],
  ["constraint_system::{prove,verify}"])

p("C18", "Witness validation and channel balance accept exactly the satisfying witnesses",
  "Validating a witness succeeds if and only if every constraint holds on every row of its table, every derived column matches its definition, every column has the declared length, non-zero columns contain no zero and every channel's pushed and pulled tuples (with multiplicities, selectors and boundaries) form equal multisets. The boundary and flush bookkeeping of the verifier agrees with it: a system whose channels do not balance is never accepted.",
  ["inputs", "programs"], "all witnesses, flush selectors, multiplicities and boundary sets",
  "Tests validate a few honest or single-fault witnesses.",
  ["crates/core/src/constraint_system/validate.rs", "crates/core/src/constraint_system/channel.rs", "crates/core/src/constraint_system/verify.rs", "crates/core/src/constraint_system/mod.rs"],
  [("validate_witness", "crates/core/src/constraint_system/validate.rs"), ("channel::validate_witness", "crates/core/src/constraint_system/channel.rs"), ("verify_channels_balance", "crates/core/src/constraint_system/verify.rs")],
  ["constraint_system::validate::validate_witness"])

p("C19", "Circuit gadgets and table builder constrain exactly the intended computation",
  "For every input, each gadget (integer addition, subtraction, increment, multiplication, division, barrel shift, lookups, state machines and hash permutations) fills a witness whose outputs equal the machine operation and that satisfies all generated constraints; and a table row whose outputs differ from the intended operation violates at least one constraint. Tables of any height, including heights that are not powers of two and empty tables, are padded so that only the declared rows take part in channels.",
  ["inputs", "programs", "configurations"], "all operand values, flag settings, table heights and single-cell deviations",
  "Tests fill random operands and check honest witnesses only; under-constrained gadgets pass every honest test.",
  ["crates/m3/src/builder", "crates/m3/src/gadgets"],
  [("gadget constraint sets and populate functions", "crates/m3/src/gadgets"), ("table filling and compilation", "crates/m3/src/builder")],
  ["TableBuilder, gadgets' new/populate, ConstraintSystem::compile, validate_witness"])

p("C20", "Every compute backend implements the kernel contracts identically",
  "For every input size, split and device memory layout, each backend operation (tensor expansion, inner products, left/right folds, FRI folds, sum and product composition, kernel-based accumulation, extrapolation, pairwise product reduction, sumcheck round evaluation) returns the value of its mathematical definition, and the optimized backend agrees with the reference one. Allocators and memory views never hand out overlapping or out-of-range regions, operations write only their output region, and invalid sizes produce errors.",
  ["inputs", "configurations"], "all operand lengths, tower levels, chunk splits and allocation sequences",
  "Tests use a shared suite with a few fixed sizes and random data.",
  ["crates/compute/src", "crates/fast_compute/src", "crates/hal/src"],
  [("ComputeLayer / ComputeLayerExecutor", "crates/compute/src/layer.rs"), ("CpuLayer reference", "crates/compute/src/cpu/layer.rs"), ("FastCpuLayer", "crates/fast_compute/src/layer.rs"), ("BumpAllocator", "crates/compute/src/alloc.rs")],
  ["ComputeLayer and ComputeLayerExecutor methods, ComputationBackend"])

p("C21", "Hash functions and batched hashing compute the specified digests",
  "For every message and every split of it into updates, each hash (Groestl-256, Vision-32, SHA-256 based compression) returns the digest of its specification; multi-lane and parallel variants return in each position exactly the digest of that lane's message alone. Compression functions are deterministic functions of both inputs in order, and digests, permutations and their inverses agree across all implementations.",
  ["inputs"], "all messages, lengths, update splits and lane counts",
  "Tests use fixed vectors and a few lengths; padding boundaries, uneven lane lengths and update splits are unbounded.",
  ["crates/hash/src"],
  [("Groestl portable / bytesliced cores", "crates/hash/src/groestl"), ("Vision permutation", "crates/hash/src/vision"), ("ParallelMultidigest", "crates/hash/src/multi_digest.rs")],
  ["digest::Digest, MultiDigest, ParallelDigest, PseudoCompressionFunction"])

p("C22", "Ring switching and batched commitment openings preserve the claims",
  "For every set of committed multilinears (any number, sizes and packing field) and evaluation claims, the reduction to a batched large-field sumcheck and low-degree opening is complete: honest claims verify end to end. Tensor-algebra decompositions satisfy their algebraic identities, the layout of merged polynomials in the commitment is a partition consistent between prover and verifier, and a false claim about any polynomial, or a message altered anywhere, is rejected.",
  ["inputs", "configurations"], "all commitment layouts, claim sets, points and alterations",
  "Tests run a few layouts with honest claims.",
  ["crates/core/src/ring_switch", "crates/core/src/tensor_algebra.rs", "crates/core/src/piop"],
  [("TensorAlgebra", "crates/core/src/tensor_algebra.rs"), ("ring_switch::{prove,verify}", "crates/core/src/ring_switch"), ("CommitMeta, piop::{commit,prove,verify}", "crates/core/src/piop")],
  ["ring_switch, piop public functions"])

p("C23", "Utility containers and arithmetic helpers meet their contracts",
  "For every input, the exact-division, logarithm and rounding helpers return the mathematical value or report the failure; stable sorting by key and its inverse are permutations that restore the original order; component labelling, sparse index maps, strided and random-access views, chunked and skippable sequences return precisely the elements their definitions name. Disjoint mutable views never alias, and out-of-range requests fail rather than return another element.",
  ["inputs"], "all integers, sequences, index sets and strides",
  "Tests use a few small examples.",
  ["crates/utils/src", "crates/maybe_rayon/src"],
  [("checked_arithmetics", "crates/utils/src/checked_arithmetics.rs"), ("strided array views (unsafe)", "crates/utils/src/strided_array.rs"), ("random access sequences", "crates/utils/src/random_access_sequence.rs"), ("connected components, sparse index", "crates/utils/src/graph.rs")],
  ["public functions of the utils crate"])

p("C24", "Results do not depend on threads, scheduling or parallelism settings",
  "Commitments, proofs, transforms and digests computed with any number of worker threads and under any interleaving are identical to those of a single-threaded run.",
  ["schedules"], "all thread counts and interleavings",
  "Tests run under one thread-pool configuration and whichever schedule occurs.",
  ["crates/maybe_rayon/src", "crates/ntt/src/multithreaded.rs", "crates/core/src", "crates/fast_compute/src"],
  [("rayon or its sequential replacement", "crates/maybe_rayon/src")],
  ["all public entry points"])

p("C25", "Proof acceptance implies a valid witness except with the stated error",
  "Against any computationally bounded prover the verifier accepts a false statement with probability at most that implied by the requested security level.",
  ["inputs", "histories"], "all adversarial provers over the verifier's and hash function's randomness",
  "No test can sample all adversaries; the claim is probabilistic and rests on cryptographic assumptions.",
  ["crates/core/src/constraint_system", "crates/core/src/protocols"],
  [("composition of the interactive oracle proof with Fiat-Shamir and Merkle commitments", "crates/core/src/constraint_system")],
  ["constraint_system::verify"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for q in P: f.write(json.dumps(q) + "\n")
print(len(P))
