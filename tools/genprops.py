#!/usr/bin/env python3
"""Writes /verif/properties.jsonl. Kept so the file stays well-formed; run by hand after editing."""
import json,os
P=[]
def p(id,title,st,over,text,why,files,mech,obs=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if obs: a["observe_at"]=obs
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","Programmable bootstrapping evaluates the chosen function on every message",
"For every parameter set, every function on the message space and every message, bootstrapping an encryption of the message decrypts to the function value (reduced modulo the message space). This holds for both bootstrapping orders, for all blind-rotation variants (bit-by-bit, block-binary, and look-up tables larger than the ring), for 32- and 64-bit tori, and for function-based and table-based entry points alike.",
["inputs","configurations"],"all messages x all functions x all valid parameter sets x bootstrapping orders x blind-rotation variants",
"The suite bootstraps one fixed message with one or two functions on a few shipped parameter sets; arbitrary functions, every message, non-shipped shapes (ranks, block sizes, one-block keys, extension factors, gadget levels) are never run.",
["tfhe/bootstrap.go","tfhe/bootstrap_lut.go","tfhe/bootstrap_keygen.go","tfhe/keyswitch.go"],
[("blind rotation variants","tfhe/bootstrap.go"),("LUT generation","tfhe/bootstrap_lut.go")],
["bootstrapped ciphertext decrypted with the secret key"])
p("C02","Bootstrapping resets noise, so circuits of any depth stay decryptable",
"The error of a bootstrapped ciphertext does not depend on the error, message or history of its input and stays within the error predicted by the parameters' own estimates, so an arbitrarily long chain of homomorphic additions (within the message space) and bootstraps keeps decrypting correctly. A ciphertext produced by bootstrapping is always usable as input of the next one.",
["histories","configurations"],"every sequence of bootstraps and linear operations, every parameter set",
"Tests look at one bootstrap and only at the decoded message; neither the error size nor chained depth is observed.",
["tfhe/bootstrap.go","tfhe/params.go","tfhe/keyswitch.go","tfhe/bootstrap_keygen.go"],
[("noise estimates","tfhe/params.go"),("bootstrapping","tfhe/bootstrap.go")],["phase error of every intermediate ciphertext"])
p("C03","Binary gates compute their truth tables in any circuit",
"Every binary gate, applied to any two valid encryptions of bits, yields an encryption of the Boolean result, for fresh, public-key, negated or previously computed inputs, when both inputs are the same ciphertext and when the output overwrites an input. Hence any Boolean circuit evaluated gate by gate decrypts to its plaintext evaluation, and bit-vector encryption preserves every integer of the given width.",
["programs","inputs","configurations"],"all gates, all input pairs, all circuits of gates, all binary parameter sets",
"Tests evaluate each gate on two fixed input pairs with fresh inputs; no circuits, aliasing or re-used outputs.",
["tfhe/binary_evaluator.go","tfhe/binary_encryptor.go","tfhe/binary_encoder.go","tfhe/binary_encryptor_public.go"],
[("gate linear combination + sign bootstrap","tfhe/binary_evaluator.go"),("bool encoding","tfhe/binary_encoder.go")],["decrypted bits of each gate output"])
p("C04","Scalar encryption round-trips: LWE, Lev and GSW",
"Decrypting an encryption of any message under the same key returns the message reduced into the message space, for plain, gadget (Lev) and GSW ciphertexts, integer or raw torus payloads, standard or custom encodings, and allocating or in-place entry points. The error added is the declared one for the ciphertext kind and never more than decoding tolerates.",
["inputs","configurations"],"all messages (negative and overflowing included), all parameter sets and gadget parameters, random keys",
"Tests encrypt one message on one parameter set; other gadget shapes, custom encodings and word sizes are not run.",
["tfhe/lwe_enc.go","tfhe/encoder.go","tfhe/encryptor.go"],
[("LWE encryption","tfhe/lwe_enc.go"),("encoding/decoding","tfhe/encoder.go")],["decrypted messages and phases"])
p("C05","Ring encryption round-trips: GLWE, GLev, GGSW and their Fourier forms",
"Decrypting an encryption of any message vector under the same key returns that vector reduced into the message space, for GLWE, GLev and GGSW ciphertexts in coefficient and Fourier form; short vectors are zero-padded and longer ones truncated to the ring size. Converting a ciphertext or key between coefficient and Fourier form and back preserves what it encrypts up to the transform's rounding error, which is negligible against the encryption noise.",
["inputs","configurations"],"all message vectors, ring sizes, ranks, gadget parameters",
"Tests round-trip one 4-entry vector on one parameter set; other ranks, ring sizes, gadget shapes and full vectors are never checked.",
["tfhe/glwe_enc.go","tfhe/fft_glwe_enc.go","tfhe/fft_glwe_conv.go","tfhe/encoder.go"],
[("GLWE encryption","tfhe/glwe_enc.go"),("FFT encryption","tfhe/fft_glwe_enc.go"),("conversion","tfhe/fft_glwe_conv.go")],["decrypted message vectors and phases"])
p("C06","Public-key encryption decrypts under the matching secret key",
"For every parameter set that supports public-key encryption, anything encrypted with a public key decrypts with the secret key it was generated from to the same message, for scalar, ring and Fourier ciphertexts, and is accepted as input by every evaluation operation. Public encryptors refuse parameter sets that do not support it instead of producing undecryptable ciphertexts.",
["inputs","configurations"],"all messages, all supported parameter sets, random keys and randomness",
"Tests encrypt a single message per ciphertext kind on one parameter set.",
["tfhe/encryptor_public.go","tfhe/lwe_enc_public.go","tfhe/glwe_enc_public.go","tfhe/fft_glwe_enc_public.go","tfhe/encryptor_key.go"],
[("public encryption","tfhe/glwe_enc_public.go"),("public key generation","tfhe/encryptor.go")],["decrypted messages and noise"])
p("C07","Linear homomorphic operations act linearly on what is encrypted",
"Addition, subtraction, negation, plaintext addition/subtraction, and multiplication by integers, real or complex constants, polynomials and monomials, as well as automorphisms, together with their add-to and subtract-from forms, transform the decrypted phase exactly as the corresponding plaintext operation does (up to Fourier rounding for floating-point forms). This holds for scalar, ring and Fourier ciphertexts and for the allocating, output-argument and in-place variants alike.",
["inputs","programs","configurations"],"all ciphertexts, all constants, all monomial degrees (negative and beyond the ring size), all odd automorphism indices, any sequence of such operations",
"Almost none of these operations is exercised directly; no test uses extreme constants, degrees out of range, accumulate variants or ring ranks above one.",
["tfhe/lwe_ops.go","tfhe/glwe_ops.go","tfhe/fft_glwe_ops.go"],
[("LWE ops","tfhe/lwe_ops.go"),("GLWE ops","tfhe/glwe_ops.go"),("FFT GLWE ops","tfhe/fft_glwe_ops.go")],["phases of operands and results"])
p("C08","Gadget, external products and CMux multiply what is encrypted",
"A gadget product of an encrypted value with a plaintext, and an external product of a GSW/GGSW encryption with any ciphertext, decrypts to the product of the two within the gadget's noise bound; CMux returns an encryption of the first branch when the selector encrypts 0 and of the second when it encrypts 1. The accumulate and subtract forms change the output operand by exactly plus or minus that product, for scalar, ring and Fourier operands.",
["inputs","configurations"],"all messages, selectors, gadget bases and levels, ranks, ring sizes; all accumulate/subtract/plain variants",
"Tests run one external product and one CMux on fixed values; accumulate/subtract forms and other gadget shapes are not covered.",
["tfhe/product.go","tfhe/decomposer.go"],
[("products","tfhe/product.go"),("decomposition","tfhe/decomposer.go")],["decrypted products and their error"])
p("C09","Key switching preserves the message across keys and dimensions",
"Switching a scalar or ring ciphertext from any input key (of any dimension or rank) to the evaluator's key yields a ciphertext that decrypts under the new key to the same phase plus an error bounded by the gadget parameters. The built-in switch between the large and small bootstrapping keys does the same in either direction of use.",
["inputs","configurations"],"all ciphertexts, pairs of independent keys, input dimensions/ranks, gadget parameters",
"Tests switch one message between keys of one shape.",
["tfhe/keyswitch.go","tfhe/keyswitch_keygen.go","tfhe/bootstrap_keygen.go","tfhe/keyswitch_key.go"],
[("key switching","tfhe/keyswitch.go"),("key-switch key generation","tfhe/keyswitch_keygen.go")],["phases before and after the switch"])
p("C10","Sample extraction yields exactly the selected coefficient",
"Extracting index i from a ring ciphertext gives a scalar ciphertext whose phase under the key reinterpreted from the ring key equals, exactly, coefficient i of the ring ciphertext's phase, for every index, rank and ring size. The reinterpreted scalar key lists the ring key's coefficients in that same order and the encryptor's own large scalar key is that key.",
["inputs","configurations"],"all ring ciphertexts (arbitrary bit patterns), all indices, ranks, ring sizes",
"Tests extract a handful of coefficients on one set and compare decoded messages only.",
["tfhe/glwe.go","tfhe/encryptor_key.go"],
[("AsLWECiphertext","tfhe/glwe.go"),("AsLWEKey","tfhe/glwe.go")],["exact integer phases"])
p("C11","Look-up tables and blind rotation agree with the rounded phase everywhere",
"For every torus phase, blind rotation returns the table entry belonging to the message interval into which the rounded phase falls, negated for phases in the upper half of the torus, and interval boundaries are centred on the encodings of the messages. Generated tables, for default or custom message moduli and scales, integer or raw torus outputs, and any extension factor, hold the function's encoded value on each interval.",
["inputs","configurations"],"all torus phases on the switched grid, all functions, message moduli and scales, table sizes and extension factors",
"Tests bootstrap only noise-centred messages; interval edges, the negacyclic half and custom tables are not reached.",
["tfhe/bootstrap_lut.go","tfhe/bootstrap.go"],
[("LUT generation","tfhe/bootstrap_lut.go"),("modulus switch","tfhe/bootstrap.go")],["blind rotation of noiseless ciphertexts over the full phase grid"])
p("C12","Gadget decomposition is balanced, bounded and recomposes to the input",
"Decomposing any torus value or polynomial gives exactly the requested number of digits, each in the signed range [-base/2, base/2], and recomposing them yields the input rounded to the gadget's precision: the error is at most half of the smallest gadget step. Scalar, polynomial and Fourier decompositions agree with each other.",
["inputs","configurations"],"all torus values including wrap-around and half-way points, all valid bases and levels, both word sizes, all ring sizes",
"Tests check one or two random polynomials for a fixed base and level.",
["tfhe/decomposer.go","tfhe/asm_decompose.go","tfhe/asm_decompose_amd64.go","tfhe/asm_decompose_amd64.s"],
[("decomposition","tfhe/decomposer.go"),("SIMD kernel","tfhe/asm_decompose_amd64.s")],["digits and recomposed values"])
p("C13","Polynomial arithmetic equals negacyclic ring arithmetic",
"Addition, subtraction, negation, scalar, monomial and full products and automorphisms of polynomials, with their add-to and subtract-from forms, equal the result in Z_q[X]/(X^N+1) computed coefficient by coefficient. The documented-exact products (full-size and short-operand products) are bit-exact for every integer type, word size and ring size, whatever the coefficients.",
["inputs","configurations"],"all polynomials (extreme coefficients included), all integer types, ring sizes, monomial degrees, odd automorphism indices",
"Tests multiply random polynomials at one ring size and type; extreme coefficients, other types, out-of-range degrees and accumulate forms are not compared with a reference.",
["math/poly/poly_ops.go","math/poly/poly_mul.go","math/poly/poly_evaluator.go","math/poly/poly.go"],
[("ring operations","math/poly/poly_ops.go"),("split-FFT exact product","math/poly/poly_mul.go")],["coefficients against schoolbook arithmetic"])
p("C14","The Fourier domain is a faithful image of the ring",
"The forward transform evaluates the polynomial at the ring's odd roots of unity and the inverse undoes it within floating-point rounding; every Fourier-domain operation (add, subtract, multiply, scale, multiply by polynomial or monomial, automorphism, with accumulate forms) corresponds to the same operation on coefficients. No operation other than those documented as destroying their input modifies it.",
["inputs","configurations"],"all polynomials within the precision range, all ring sizes, degrees, odd automorphism indices and operation sequences",
"Tests do one round trip and a few products at one ring size.",
["math/poly/fft.go","math/poly/fft_ops.go","math/poly/asm_fft.go","math/poly/asm_fold.go","math/poly/asm_vec_cmplx.go"],
[("FFT","math/poly/asm_fft.go"),("folding","math/poly/asm_fold.go"),("FFT ops","math/poly/fft_ops.go")],["coefficients against direct evaluation"])
p("C15","Vector kernels compute element-wise results for any length and type",
"Every vector operation returns, for each position, exactly the arithmetic result in the element type, for every supported numeric type, every length including zero, one and non-multiples of the SIMD width, and when the output is one of the inputs. Nothing outside the output's length is written.",
["inputs","configurations"],"all element types, lengths, alignments, values, in-place and out-of-place",
"Tests use one length (a multiple of the vector width) and two element types.",
["math/vec/vec.go","math/vec/asm_vec.go","math/vec/asm_vec_amd64.go","math/vec/asm_vec_amd64.s"],
[("kernels","math/vec/asm_vec_amd64.s"),("dispatch","math/vec/asm_vec_amd64.go")],["output slices with guard elements"])
p("C16","All execution back ends are interchangeable",
"The SIMD build, the same build on a CPU without the SIMD extensions, and the pure-Go build compute the same results from the same inputs and randomness: bit-identical for integer operations and equal up to floating-point rounding for Fourier ones. Keys and ciphertexts produced and serialized by one can be loaded and evaluated by any other with the same decrypted results.",
["inputs","configurations"],"all operations and inputs, all pairs of back ends",
"Tests run each back end separately with fresh randomness and never compare or exchange their outputs.",
["math/vec/asm_vec_amd64.go","math/poly/asm_fft_amd64.go","math/poly/asm_fold_amd64.go","math/poly/asm_vec_cmplx_amd64.go","tfhe/asm_decompose_amd64.go"],
[("CPU dispatch","math/vec/asm_vec_amd64.go"),("pure Go fallbacks","math/poly/asm_fft.go")],["recorded outputs of the same seeded program in each build"])
p("C17","Kernels never read or write outside their operands",
"No operation on valid operands reads or writes memory outside the operands it was given, whatever their length, alignment or position in memory, in assembly as well as in pointer-based Go code. Running with bounds instrumentation, pointer checking and inaccessible guard pages around operands produces no fault. Vector, polynomial and transform operations given operands of inconsistent lengths refuse them with a panic instead of computing on part of them or running past their end.",
["inputs","configurations"],"all operations taking caller slices, all lengths (consistent or not) and alignments, all back ends",
"Ordinary heap slices have slack around them, so a stray access is silent in the tests.",
["math/vec/asm_vec_amd64.s","math/poly/asm_fft_amd64.s","math/poly/asm_fold_amd64.s","math/poly/asm_vec_cmplx_amd64.s","tfhe/asm_decompose_amd64.s","math/vec/asm_vec.go","math/poly/asm_fft.go"],
[("assembly loops","math/vec/asm_vec_amd64.s"),("unsafe indexing","math/poly/asm_fft.go")],["SIGSEGV on guard pages","checkptr and address sanitizer reports"])
p("C18","Integer helper functions match their mathematical definitions",
"Rounded division, bit-shift rounding, logarithms, square roots, power-of-two tests, extrema, modular inverse and modular exponentiation return the mathematically correct value for every argument in the documented domain and panic outside it, for every integer type.",
["inputs"],"all arguments in the documented domain of each helper, all integer types",
"There are only a few example values, mostly for int and uint64.",
["math/num/num.go"],[("helpers","math/num/num.go")],["results against big-integer arithmetic"])
p("C19","Random samplers follow their declared distributions and seeds",
"Uniform samples are unbiased and in range, binary keys are uniform bits, block-binary vectors have at most one 1 per block with each of the block's outcomes equally likely, and Gaussian samples are centred with the requested deviation and bounded tails, for every output type. Samplers built from the same seed and driven by the same calls produce the same sequence, whatever the splitting of uniform and Gaussian draws into calls, and different seeds give unrelated ones.",
["inputs","histories"],"all seeds, ranges, deviations, block sizes, vector lengths and call patterns",
"Only a single statistical test of one sampler exists and it is excluded as flaky.",
["math/csprng/uniform_sampler.go","math/csprng/binary_sampler.go","math/csprng/gaussian_sampler.go"],
[("samplers","math/csprng/gaussian_sampler.go"),("AES-CTR stream","math/csprng/uniform_sampler.go")],["sample statistics with deterministic seeds"])
p("C20","Encryption randomness is fresh everywhere and has the declared noise",
"No two encryptions, keys or key components ever share a mask or noise stream, across repeated calls, separately created objects, safe copies used side by side, and parallel key generation; encrypting the same message twice gives unrelated ciphertexts. Every fresh ciphertext and key component carries noise whose measured deviation matches the one declared by its parameters, and is never noiseless.",
["histories","configurations","schedules"],"all sequences of encryptions and key generations over all encryptors and their copies",
"Correct decryption is all that tests look at, and it is insensitive to repeated masks or missing noise.",
["tfhe/lwe_enc.go","tfhe/glwe_enc.go","tfhe/encryptor.go","tfhe/encryptor_public.go","tfhe/bootstrap_keygen.go","math/csprng/uniform_sampler.go","mktfhe/encryptor.go"],
[("per-object samplers","tfhe/encryptor.go"),("system randomness","math/csprng/uniform_sampler.go")],["mask bytes of all outputs; phase errors"])
p("C21","Generated keys have the declared structure and encrypt the right secrets",
"Secret keys are binary, follow the block structure of the parameters, and their scalar, ring and Fourier views describe the same key. Every component of a generated evaluation key decrypts to the secret it stands for (each key bit for blind rotation, each gadget-scaled key coefficient for key switching) with the declared noise, whether generated sequentially or in parallel, and only the components required by the parameters are present.",
["inputs","configurations","schedules"],"all parameter sets, all components of generated keys, sequential and parallel generation",
"Tests use keys only as a whole through one bootstrap; a single wrong component usually stays invisible.",
["tfhe/encryptor_key.go","tfhe/encryptor.go","tfhe/bootstrap_keygen.go","tfhe/keyswitch_keygen.go"],
[("secret key generation","tfhe/encryptor.go"),("evaluation key generation","tfhe/bootstrap_keygen.go")],["decrypted key components"])
p("C22","Parameters are validated and their derived quantities are consistent",
"Compiling a parameter description either yields parameters whose every accessor and derived quantity (dimensions, scale, block count, gadget steps, standard deviations, extension factor) agrees with the description, or panics for descriptions that violate a documented constraint; turning compiled parameters back into a description and recompiling is the identity. All shipped parameter sets compile and claim a negligible failure probability.",
["inputs","configurations"],"all parameter descriptions, valid and invalid, in all packages",
"Tests only compile the shipped sets.",
["tfhe/params.go","mktfhe/params.go","xtfhe/manylut_params.go","xtfhe/fhew_params.go","xtfhe/circuit_bootstrap_params.go","xtfhe/sanitization_params.go"],
[("Compile","tfhe/params.go")],["accessors, panics"])
p("C23","Serialization is lossless and reports exact sizes",
"Writing any parameter set, key, plaintext or ciphertext and reading it back gives an equal object of the same shape, whatever the receiver held before; the number of bytes written, the number read, the size announced beforehand and the encoded length are all the same. Objects written one after another on a stream are read back in order, and re-encoding gives identical bytes.",
["inputs","histories","configurations"],"all serializable types of the single-key scheme, all shapes, all receivers, all concatenations",
"Tests round-trip one instance of each type into an empty receiver and do not look at the byte counts of reads.",
["tfhe/lwe_marshal.go","tfhe/glwe_marshal.go","tfhe/fft_glwe_marshal.go","tfhe/keyswitch_key_marshal.go","tfhe/bootstrap_key_marshal.go","tfhe/encryptor_key_marshal.go","tfhe/params.go"],
[("ReadFrom/WriteTo","tfhe/lwe_marshal.go")],["bytes, returned counts, decoded objects"])
p("C24","Stream faults during serialization surface as errors with exact byte counts",
"When the underlying reader ends early or either stream fails at any byte, reading or writing returns a non-nil error together with the number of bytes actually transferred, and never panics or reports success. Readers that deliver the data in arbitrary small pieces give the same object as one-shot readers, and nothing beyond the object's own bytes is consumed.",
["fault_sequences","inputs"],"every fault position and kind, every fragmentation, every serializable type in all packages",
"Tests use only in-memory buffers that never fail.",
["tfhe/lwe_marshal.go","tfhe/glwe_marshal.go","tfhe/fft_glwe_marshal.go","tfhe/keyswitch_key_marshal.go","tfhe/bootstrap_key_marshal.go","tfhe/encryptor_key_marshal.go","mktfhe/lwe_marshal.go","mktfhe/glwe_marshal.go","mktfhe/fft_glwe_marshal.go","mktfhe/bootstrap_key_marshal.go"],
[("error propagation","tfhe/glwe_marshal.go")],["returned (n, err) vs bytes seen by the faulty stream"])
p("C25","Safe copies can be used concurrently without interference",
"Objects obtained as thread-safe copies, and objects made separately, can be made and used at the same time from different goroutines, sharing keys, without any data race, and each call returns what it would return when run alone. This holds for encryptors, decryptors, evaluators, transformers and decomposers of all packages, under every interleaving.",
["schedules","programs"],"all interleavings of operations on copies of the same object, all object kinds",
"No test runs two copies at the same time.",
["tfhe/evaluator.go","tfhe/encryptor.go","tfhe/encryptor_public.go","tfhe/binary_evaluator.go","tfhe/decomposer.go","math/poly/poly_evaluator.go","mktfhe/evaluator.go","mktfhe/decryptor.go","mktfhe/encryptor.go","xtfhe/bfv_evaluator.go","xtfhe/circuit_bootstrap.go","xtfhe/manylut_evaluator.go","xtfhe/fhew_evaluator.go","xtfhe/sanitization.go"],
[("SafeCopy","tfhe/evaluator.go")],["race detector reports; per-goroutine results vs sequential ones"])
p("C26","Parallel entry points are race-free and equivalent to the sequential ones",
"Every parallel variant of key generation and of multi-key evaluation is free of data races, terminates, and produces a result with the same meaning as its sequential counterpart, for any number of processors and for dimensions or party counts smaller or larger than the number of workers.",
["schedules","configurations"],"all interleavings, GOMAXPROCS values, dimensions relative to the worker count",
"Tests call the parallel variants once on one machine shape without the race detector.",
["tfhe/bootstrap_keygen.go","mktfhe/bootstrap.go","mktfhe/bootstrap_keygen.go","mktfhe/binary_evaluator.go","xtfhe/fhew_bootstrap_keygen.go"],
[("worker pools","tfhe/bootstrap_keygen.go"),("per-party workers","mktfhe/bootstrap.go")],["race detector reports; decrypted components/results"])
p("C27","Operations never modify their inputs",
"No evaluation, encryption, decryption, conversion or serialization call changes any of its input ciphertexts, plaintexts, keys or tables (other than documented in-place arguments), nor memory shared with them. Evaluation keys and secret keys are bit-identical after any sequence of operations.",
["programs","inputs"],"all operations of all packages, all operands",
"Tests never compare operands before and after a call.",
["tfhe/bootstrap.go","tfhe/product.go","tfhe/keyswitch.go","tfhe/glwe_ops.go","tfhe/fft_glwe_ops.go","math/poly/poly_mul.go","math/poly/fft.go","mktfhe/product.go","xtfhe/bfv_evaluator.go","xtfhe/circuit_bootstrap.go"],
[("internal buffers","tfhe/evaluator.go")],["hashes of all operands around each call"])
p("C28","Results do not depend on earlier calls or on stale output contents",
"A deterministic operation returns the same result on an object that has already performed any sequence of other operations as on a fresh one, and an output argument that held arbitrary data before is fully overwritten. Results already returned are never changed by later calls on the same object.",
["histories","programs"],"all sequences of prior operations on an evaluator, all prior contents of outputs",
"Every test starts from fresh objects and zeroed outputs.",
["tfhe/evaluator.go","tfhe/bootstrap.go","tfhe/product.go","tfhe/decomposer.go","math/poly/poly_evaluator.go","mktfhe/evaluator.go","mktfhe/product.go","xtfhe/bfv_evaluator.go"],
[("reused internal buffers","tfhe/evaluator.go")],["outputs of fresh and used evaluators, hashed results"])
p("C29","Copies are equal and independent; clearing zeroes",
"Copying any key, ciphertext, plaintext, table, polynomial or vector gives an equal object that shares no memory with the original, copying into an existing object of the same shape makes it equal to the source including its descriptive parameters, and clearing makes the value zero without affecting copies.",
["inputs","histories"],"all copyable types of all packages and any mutation afterwards",
"Copy and clear methods are essentially not tested.",
["tfhe/lwe.go","tfhe/glwe.go","tfhe/fft_glwe.go","tfhe/encryptor_key.go","tfhe/bootstrap_key.go","tfhe/keyswitch_key.go","math/poly/poly.go","math/poly/fft.go","mktfhe/lwe.go","mktfhe/glwe.go","mktfhe/fft_glwe.go","mktfhe/bootstrap_key.go"],
[("Copy/CopyFrom/Clear","tfhe/glwe.go")],["deep comparison before and after mutations"])
p("C30","Output arguments may coincide with inputs",
"For operations documented as allowing overlap (all polynomial and vector operations except those with a separate in-place form), and for the homomorphic operations built from them, passing an input object as the output gives the same result as using a distinct output. In-place forms equal their out-of-place counterparts.",
["inputs","programs"],"all such operations, all aliasing patterns of arguments",
"Tests always use separate outputs.",
["math/poly/poly_ops.go","math/poly/fft_ops.go","math/poly/poly_mul.go","math/vec/vec.go","tfhe/lwe_ops.go","tfhe/glwe_ops.go","tfhe/fft_glwe_ops.go","tfhe/bootstrap.go","tfhe/product.go","tfhe/keyswitch.go"],
[("overlap-safe kernels","math/poly/poly_ops.go")],["aliased vs distinct-output results"])
p("M01","Multi-key encryption decrypts jointly for any set of parties",
"A ciphertext produced by any party decrypts, with the secret keys of the involved parties, to its message, for scalar, ring and Fourier forms, secret- and public-key encryption, any party index and any subset of parties known to the decryptor; keys added later behave as if given at construction.",
["inputs","configurations","histories"],"all messages, party indices, party subsets, parameter sets, orders of adding keys",
"Tests use two parties 0 and 1 with all keys present from the start.",
["mktfhe/encryptor.go","mktfhe/decryptor.go","mktfhe/glwe_enc.go","mktfhe/fft_glwe_enc.go","mktfhe/encryptor_public.go"],
[("decryptor","mktfhe/decryptor.go"),("party encryptor","mktfhe/encryptor.go")],["decrypted messages per party subset"])
p("M02","Multi-key gates compute their truth tables across parties",
"Every multi-key binary gate on encryptions by any two parties, or on previous results involving more parties, yields a ciphertext that decrypts jointly to the Boolean result, for sequential and parallel variants alike and with a decision margin independent of the gate's inputs. Circuits of gates decrypt to their plaintext evaluation.",
["programs","inputs","configurations"],"all gates, input pairs, party combinations, circuits",
"Tests evaluate each gate on two parties and fixed inputs.",
["mktfhe/binary_evaluator.go","mktfhe/binary_encryptor.go","mktfhe/binary_decryptor.go"],
[("gates","mktfhe/binary_evaluator.go")],["decrypted bits"])
p("M03","Multi-key bootstrapping evaluates functions for any party set",
"Bootstrapping a multi-key ciphertext involving any set of parties with registered evaluation keys evaluates the chosen function on the encrypted message and refreshes its noise, for every message, function, parameter set and bootstrapping order; the parallel form agrees, and parties whose keys are not registered and not involved do not matter.",
["inputs","configurations","histories"],"all messages, functions, party subsets, both orders, sequential and parallel",
"Tests only run gates on the shipped two-party set.",
["mktfhe/bootstrap.go","mktfhe/bootstrap_keygen.go","mktfhe/product.go","mktfhe/evaluator.go"],
[("blind rotation","mktfhe/bootstrap.go"),("hybrid product","mktfhe/product.go")],["decrypted function values and noise"])
p("M04","Multi-key products multiply what is encrypted",
"A uni-encryption decrypts under its owner's key to its message, and the hybrid and external products of a party's encryption with any multi-key ring ciphertext decrypt jointly to the product within the noise bound; accumulate and subtract forms change the output operand by exactly plus or minus that product, for every party index.",
["inputs","configurations"],"all messages, party indices and sets, gadget parameters, plain/accumulate/subtract forms",
"Only one of the six product entry points is ever reached by a test, indirectly.",
["mktfhe/product.go","mktfhe/glwe_enc.go","mktfhe/fft_glwe_enc.go","mktfhe/fft_glwe_conv.go"],
[("hybrid and external products","mktfhe/product.go")],["decrypted products"])
p("M05","Multi-key linear operations and conversions preserve meaning",
"Additions, subtractions, negations, scalar, polynomial and monomial multiplications and automorphisms of multi-key ciphertexts act on the joint phase exactly like the plaintext operation; embedding a single-key ciphertext of a party, extracting a coefficient, and converting between coefficient and Fourier form preserve the encrypted value.",
["inputs","programs","configurations"],"all ciphertexts, constants, party indices, degrees and automorphisms",
"These operations are almost entirely untested.",
["mktfhe/lwe_ops.go","mktfhe/glwe_ops.go","mktfhe/fft_glwe_ops.go","mktfhe/glwe.go","mktfhe/lwe.go","mktfhe/fft_glwe_conv.go"],
[("multi-key operations","mktfhe/glwe_ops.go")],["joint phases"])
p("M06","Multi-key serialization is lossless with exact sizes",
"Writing any multi-key parameter set, key or ciphertext and reading it back gives an equal object of the same shape, whatever the receiver held; bytes written, bytes read, announced size and encoded length agree, and copies made through these types are equal and independent.",
["inputs","histories","configurations"],"all serializable multi-key types, shapes and receivers",
"Tests round-trip one instance of each type into an empty receiver.",
["mktfhe/lwe_marshal.go","mktfhe/glwe_marshal.go","mktfhe/fft_glwe_marshal.go","mktfhe/bootstrap_key_marshal.go","mktfhe/params.go"],
[("ReadFrom/WriteTo","mktfhe/glwe_marshal.go")],["bytes, counts, decoded objects"])
p("M07","Parties sharing a reference seed generate compatible keys, others do not",
"The common reference string depends only on the shared seed and the parameters: every party, at any time and in any process, derives the same one, while its secrets and noise stay independent. Evaluation keys of every party decrypt component-wise to that party's key under its own key and interoperate exactly with parties using the same seed.",
["configurations","histories"],"all seeds, party indices, repeated constructions and safe copies",
"Tests use one seed in one process and never look at the reference string or key components.",
["mktfhe/encryptor.go","mktfhe/bootstrap_keygen.go"],
[("CRS derivation","mktfhe/encryptor.go"),("key generation","mktfhe/bootstrap_keygen.go")],["CRS values, key components, cross-party evaluation"])
p("X01","Homomorphic ring multiplication multiplies plaintexts",
"Multiplying two encryptions of polynomials decrypts to their product in the plaintext ring within the noise budget; the tensor product decrypts under the extended (quadratic) key to that same product, and relinearizing any tensor ciphertext preserves it. Allocating, output-argument and repeated use give the same answers.",
["inputs","configurations","histories"],"all plaintext polynomials, ranks, supported parameter sets",
"The test multiplies one pair through the combined entry point; tensor and relinearization are never used on their own.",
["xtfhe/bfv_evaluator.go","xtfhe/bfv_keygen.go"],
[("tensor/relinearize","xtfhe/bfv_evaluator.go")],["decrypted products; quadratic phase"])
p("X02","Ring automorphism and packing place messages where they belong",
"Applying an automorphism with its Galois key to an encryption of p(X) decrypts to p(X^d) for every odd d with a generated key; packing a scalar ciphertext gives a ring ciphertext encrypting the message as a constant polynomial.",
["inputs","configurations"],"all plaintexts, all odd indices, all scalar messages",
"Tests use one automorphism index and read only what one message gives.",
["xtfhe/bfv_evaluator.go","xtfhe/bfv_keygen.go"],
[("Permute/Pack","xtfhe/bfv_evaluator.go")],["decrypted polynomials"])
p("X03","Multi-output bootstrapping evaluates all functions in one pass",
"Bootstrapping with several functions returns, in order, encryptions of each function applied to the message, for every message, every tuple of functions up to the table count, fewer functions than the maximum, and every shipped or valid parameter set, function- or table-based.",
["inputs","configurations"],"all messages, tuples of functions, parameter sets",
"Tests run one message with a single set of functions.",
["xtfhe/manylut_bootstrap.go","xtfhe/manylut_evaluator.go","xtfhe/manylut_params.go"],
[("interleaved LUT","xtfhe/manylut_bootstrap.go")],["decrypted outputs"])
p("X04","Circuit bootstrapping yields a usable GGSW of the same message",
"Circuit-bootstrapping an encryption of a bit produces a GGSW ciphertext that decrypts to that bit at every gadget level and row, and works as a selector: CMux and external products with it give the selected branch within the noise budget, for every message and every shipped parameter set.",
["inputs","configurations","histories"],"all messages, inputs with noise, parameter sets, repeated use",
"The test checks one message and only one product.",
["xtfhe/circuit_bootstrap.go","xtfhe/circuit_bootstrap_key.go","xtfhe/circuit_bootstrap_params.go"],
[("scheme switching and trace","xtfhe/circuit_bootstrap.go")],["row-wise decryption of the GGSW, products"])
p("X05","FHEW-style blind rotation evaluates functions with arbitrary-norm keys",
"With non-binary (Gaussian) secret keys, bootstrapping by automorphisms evaluates the chosen function on every message with refreshed noise, and gives correct results for every key, message, window size and both key-generation modes.",
["inputs","configurations"],"all messages, functions, keys, window sizes",
"The test bootstraps one message with one function.",
["xtfhe/fhew_bootstrap.go","xtfhe/fhew_bootstrap_keygen.go","xtfhe/fhew_enc.go","xtfhe/fhew_params.go"],
[("automorphism-based blind rotation","xtfhe/fhew_bootstrap.go")],["decrypted function values, noise"])
p("X06","Sanitization keeps the message and re-randomizes the ciphertext",
"Sanitizing a ciphertext with a function yields an encryption of the function value under the same key; re-randomizing a ciphertext yields a new one with the same message. Every output carries fresh randomness of the declared size: two sanitizations of the same input are unrelated ciphertexts.",
["inputs","histories","configurations"],"all messages, functions, repeated sanitizations",
"The test checks one message value only and not the randomization.",
["xtfhe/sanitization.go","xtfhe/sanitization_sampler.go","xtfhe/sanitization_params.go"],
[("re-randomization","xtfhe/sanitization.go")],["decrypted values, mask statistics"])
p("X07","Discrete Gaussian table sampling matches the requested centre and width",
"The table-based discrete Gaussian sampler returns integers distributed around the requested centre with the requested deviation and bounded tails, for every centre (integral, fractional, negative, far from zero) and every deviation large enough for the distribution to be smooth.",
["inputs"],"all centres and deviations, all output types",
"There is no test of this sampler.",
["xtfhe/sanitization_sampler.go"],[("CDT table","xtfhe/sanitization_sampler.go")],["sample statistics"])
p("A01","The assembly generator reproduces working kernels",
"The vector, transform, folding and decomposition kernels emitted by the repository's generator behave like the pure-Go reference when built in place of the committed ones: same results on every operand and no access outside the operands.",
["inputs","configurations"],"all kernels emitted, all lengths and operands",
"The generator is only compiled, never run, by the build, and its output is not tested.",
["internal/asmgen/asmgen.go","internal/asmgen/vec.go","internal/asmgen/vec_cmplx.go","internal/asmgen/fft.go","internal/asmgen/fft_butterfly.go","internal/asmgen/fold.go","internal/asmgen/decompose.go"],
[("generator","internal/asmgen/asmgen.go")],["kernel conformance runs on a build with regenerated assembly"])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        for fn in x["anchors"]["files"]:
            if not os.path.exists("/repo/"+fn): print("missing",x["id"],fn)
        f.write(json.dumps(x)+"\n")
print(len(P))
