#!/usr/bin/env python3
"""Single source of the property list: writes /verif/properties.jsonl."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": None}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

prop("C01", "Arithmetic of the 64-bit NTT field is exact for every operand",
 "For the field modulo p = 2^64-2^32+1, addition, subtraction, multiplication (plain and compound-assignment forms), multiplication by 2^s for every 0 <= s < 192, exponentiation and the inverse powers of two give exactly the canonical residue of the mathematical result, whatever reduced operands are used. Results are always reduced, so any chain of operations can be continued.",
 ["inputs"], "all pairs of residues in [0,p), all shift amounts 0..191, exponents, 1..31 for inverse powers of two, and chains of operations",
 "The INTorus tests sample uniform random operands and a few shift values; wrap-around carries occur with probability about 2^-32 per operation on uniform inputs, so the correction terms are almost never exercised.",
 ["include/INTorus.hpp"], [("carry/borrow corrections in + - * and the ten shift ranges of <<", "include/INTorus.hpp:INTorus"), ("closed form for 2^-n", "include/INTorus.hpp:InvPow2")],
 ["INTorus::value after each operation"])

prop("C02", "NTT polynomial multiplication is the exact negacyclic product",
 "The forward and inverse number-theoretic transforms over the 64-bit field are inverse to each other for every polynomial of every supported size, and multiplying through them yields exactly the negacyclic product: modulo p for field polynomials, and for 32-bit torus words the same product (of the unsigned words, modulo p) truncated to 32 bits, which is the product modulo 2^32 up to one unit in the last place per wrap of p. Transforms of 64-bit torus polynomials are exact up to the documented rescaling between 2^64 and p.",
 ["inputs"], "all polynomials (dense, sparse, extreme coefficients) and supported transform sizes, products within the exact range of the transform",
 "The cuhe++ test multiplies a few uniformly random polynomials at one size; sparse, extremal and boundary coefficients and other transform sizes are never tried.",
 ["include/cuhe++.hpp", "include/mulfft.hpp"], [("radix-8/radix-2 butterflies and twist tables", "include/cuhe++.hpp:INTT/NTT/TwistINTT/TwistNTT"), ("TwistNTT wrappers", "include/mulfft.hpp")],
 ["TwistINTT/TwistNTT round trip, PolyMullvl1 result"])

prop("C03", "Montgomery (RAINTT) arithmetic and transform are exact",
 "The signed/unsigned Montgomery reductions, modular add/subtract and the RAINTT transform compute exact results modulo its word-size prime for every representable input, including boundary residues and lazily reduced ones. Multiplying polynomials through it gives the exact negacyclic product modulo the prime for every pair of inputs.",
 ["inputs"], "all word operands within the documented input ranges of each primitive, all residue polynomials incl. extreme values, transform sizes 2^9..2^11",
 "The raintt test uses uniform random words and polynomials, which hit a reduction boundary with probability about 2^-27; it is not even part of the reliably passing suite.",
 ["include/raintt.hpp"], [("REDC/SREDC/MulSREDC/AddMod/SubMod", "include/raintt.hpp"), ("lazy butterflies with interval bookkeeping", "include/raintt.hpp:INTT/NTT")],
 ["returned words and polynomials modulo raintt::P"])

prop("C04", "FFT polynomial multiplication is correct to its rounding precision",
 "For every ring dimension offered, the FFT-based polynomial products (small integer polynomial times torus polynomial, frequency-domain multiply and multiply-accumulate, unsigned rescaled product) equal the exact negacyclic product up to the rounding error inherent in double precision, for every input, and transforming to the frequency domain and back returns the input up to that error. The exact reference multiplication offered by the library is exact modulo the torus size.",
 ["inputs"], "all torus polynomials and all small polynomials in the range used by external products (|coeff| <= Bg/2) including worst-case aligned signs, all coefficient positions",
 "polymul.cpp samples uniform random coefficients; worst-case magnitudes, single monomials at each position and wrap-around coefficients are not reached, and only errors above one rounding unit are asserted.",
 ["include/mulfft.hpp", "thirdparties/spqlios/spqlios-fft-impl.cpp", "thirdparties/spqlios/fft_processor_spqlios.cpp", "thirdparties/spqlios/spqlios-fft-fma.s", "thirdparties/spqlios/spqlios-ifft-fma.s"],
 [("TwistFFT/TwistIFFT, TwistFFTrescale", "include/mulfft.hpp"), ("PolyMul, PolyMulNaive, PolyMulRescaleUnsigned, MulInFD, FMAInFD", "include/mulfft.hpp"), ("torus<->double conversion", "thirdparties/spqlios/fft_processor_spqlios.cpp")],
 ["coefficient-wise difference to a schoolbook product"])

prop("C05", "Polynomial ring operations obey the negacyclic ring laws exactly",
 "Multiplying by X^a (and by X^a - 1), for every exponent 0 <= a <= 2n, and applying the automorphism X -> X^d, for every odd d, give exactly the result defined by arithmetic in Z_q[X]/(X^n+1). The Nussbaumer transform is linear and its inverse returns exactly n times the input, for every word type and size.",
 ["inputs"], "all exponents 0..2n (including 0, n-1, n, n+1, 2n-1, 2n), all odd d, all polynomials, every ring dimension",
 "cmuxpmbxmo/automorphism/nussbaumer tests use one or a few random exponents and inputs; boundary exponents and algebraic laws are not checked.",
 ["include/utils.hpp", "include/nussbaumer.hpp"], [("PolynomialMulByXai, PolynomialMulByXaiMinusOne, Automorphism", "include/utils.hpp"), ("Nussbaumer transform / inverse", "include/nussbaumer.hpp")],
 ["returned polynomials"])

prop("C06", "Gadget decomposition is balanced and reconstructs its input",
 "For every torus value, the gadget digits lie in the balanced range [-Bg/2, Bg/2] and the sum of digits weighted by the gadget vector differs from the value by at most half of the last gadget weight. The gadget vector itself is Bg^-1..Bg^-l of the torus.",
 ["inputs", "configurations"], "all torus values (boundaries of every digit included) at every level and parameter set",
 "No test checks decomposition at all; external-product tests only notice gross errors and only on random values.",
 ["include/trgsw.hpp"], [("Decomposition, offsetgen, hgen", "include/trgsw.hpp")], ["digits and reconstruction error"])

prop("C07", "TLWE encryption is correct: every message at every level decrypts back",
 "At every level, decrypting a fresh TLWE encryption returns the message, for every bit vector, every torus message and every integer message in the plaintext space; integer decryption returns the nearest message for any phase and any modulus that fits the torus word; the phase equals the message plus noise that is centred and has the configured standard deviation (the generators of Gaussian and centred binomial noise follow their law for every parameter). Encryption of a vector of any length (including empty) is element-wise and preserves order.",
 ["inputs", "configurations"], "all messages, key levels, explicit noise levels, plaintext moduli and vector lengths",
 "tlweenc.cpp samples 1000 random bits at one level; other levels, integer messages, extreme torus messages and the noise law (a security parameter) are not tested.",
 ["include/tlwe.hpp", "include/utils.hpp", "src/tlwe.cpp"], [("tlweSymEncrypt/Phase/Decrypt, IntEncrypt/IntDecrypt, bootsSymEncrypt/Decrypt", "include/tlwe.hpp"), ("ModularGaussian", "include/utils.hpp")],
 ["decrypted values; phase minus message"])

prop("C08", "TRLWE/TRGSW encryption is correct in every coefficient",
 "At every ring level, decrypting a fresh TRLWE encryption returns the message in all n coefficients, for bit, torus and integer messages, with centred noise of the configured standard deviation in each coefficient. Every row of a TRGSW (and half-TRGSW) encryption is a TRLWE encryption of the message times the corresponding gadget element, in the plain, FFT, NTT and RAINTT representations.",
 ["inputs", "configurations"], "all message polynomials, ring levels, noise levels, all rows and representations",
 "trlweenc/trgswenc decrypt random bits at a few levels; integer messages, noise distribution, each gadget row and the representations are not checked individually.",
 ["include/trlwe.hpp", "include/trgsw.hpp", "src/trlwe.cpp", "src/trgsw.cpp"], [("trlweSymEncrypt*, trlwePhase, trlweSymDecrypt, trlweSymIntEncrypt/IntDecrypt", "include/trlwe.hpp"), ("trgswSymEncrypt, halftrgswSymEncrypt, Apply{FFT,NTT,RAINTT}2trgsw", "include/trgsw.hpp")],
 ["decrypted polynomials; per-row phases"])

prop("C09", "Linear homomorphism and sample extraction preserve phases exactly",
 "The phase is linear: adding, subtracting, negating or scaling ciphertexts by integers changes the phase by exactly the same operation, and extracting coefficient i of a TRLWE sample yields a TLWE sample whose phase is coefficient i of the TRLWE phase, for every i. Re-embedding a TLWE sample at any index and extracting it at that index again returns the identical sample, with the phase at that coefficient unchanged.",
 ["inputs"], "all ciphertexts (including non-fresh/adversarial coefficient patterns), all indices 0..n-1, every ring level",
 "Existing tests extract only index 0 or use random indices inside larger flows with bit-level decryption; exactness at every index is never asserted.",
 ["include/trlwe.hpp", "include/tlwe.hpp"], [("SampleExtractIndex, InvSampleExtractIndex", "include/trlwe.hpp"), ("tlweSymPhase, trlwePhase", "include/tlwe.hpp, include/trlwe.hpp")], ["phases, raw ciphertext words"])

prop("C10", "Keys and encryption randomness are well-formed, fresh and unpredictable",
 "Every secret key generated has all its coefficients at every level inside the declared value range, covering the whole range without bias, and independent between levels, keys and threads. Ciphertext masks are uniform over the whole torus, never repeat between encryptions, keys or threads, and all randomness derives from the system entropy source (at least 256 bits of it), so encrypting twice never gives the same ciphertext. The same holds for every row of the evaluation-key material (key-switching, private key-switching, bootstrapping keys): each row is an encryption with its own uniform mask and its own fresh noise, none is trivial or noiseless.",
 ["inputs", "histories", "schedules"], "all seeds of the entropy source, any number of keys and encryptions in any number of threads",
 "Tests never look at the key or mask distribution, at repetition or at the entropy source; a constant seed or an ungenerated key level passes all of them.",
 ["src/key.cpp", "include/utils.hpp", "include/key.hpp", "thirdparties/randen/randen.h", "thirdparties/randen/randen.cc"], [("lweKey::lweKey", "src/key.cpp"), ("thread_local generator seeded from std::random_device", "include/utils.hpp:generator"), ("ModularGaussian, CenteredBinomial", "include/utils.hpp"), ("ikskgen, privkskgen, bkgen", "include/cloudkey.hpp")],
 ["key coefficients, ciphertext masks, bytes drawn from std::random_device"])

prop("C11", "External products multiply the encrypted plaintexts, with bounded noise",
 "For every TRGSW encryption of a small polynomial m and every TRLWE ciphertext c, the external product (FFT, NTT, RAINTT and half-TRGSW forms, at every ring level) has as phase m times the phase of c, with an error no larger than the scheme's noise bound in every coefficient. The different backends agree with each other up to that bound.",
 ["inputs"], "all small message polynomials (bits, -1/0/1, monomials), all ciphertexts incl. trivial and extreme ones, all backends and levels",
 "externalproduct*.cpp only multiply by constant +-1/0 and check decrypted signs, which tolerates noise hundreds of times too large and any error below 1/8.",
 ["include/trgsw.hpp", "include/mulfft.hpp"], [("trgswfftExternalProduct, halftrgswfftExternalProduct, trgswnttExternalProduct, trgswrainttExternalProduct", "include/trgsw.hpp")], ["phase of the result minus expected phase, per coefficient"])

prop("C12", "CMUX selects, and CMUX trees behave as addressable memory",
 "CMUX returns an encryption of the first or second input according to the encrypted selector (and its monomial-rotating form rotates by exactly the selected power), for every selector and data, leaving its inputs intact. RAM and ROM lookup trees return exactly the entry at the encrypted address for every address, memory size, word width and contents, and a RAM write changes exactly the addressed entry, for any history of reads and writes.",
 ["inputs", "histories"], "all selectors, rotations 0..2n-1, address widths, contents, and sequences of reads and writes checked against an in-memory array",
 "cmux/ram/rom tests use one random address and bit contents per run and one memory geometry; they cannot visit every address, geometry or a write history.",
 ["include/detwfa.hpp", "include/cmuxmem.hpp"], [("CMUXFFT, CMUX{FFT,NTT,RAINTT}withPolynomialMulByXaiMinusOne", "include/detwfa.hpp"), ("RAMUX, RAMwriteBar, UROMUX, LROMUX", "include/cmuxmem.hpp")], ["decrypted words / phases per address"])

prop("C13", "Key switching preserves the message for every ciphertext and key pair",
 "Identity key switching (single, concatenated and subset forms) between any offered pair of levels yields a ciphertext under the target key whose phase equals the source phase, rescaled to the target torus, with centred error no larger than the noise bound of the key switch (digit rounding plus key noise). The concatenated form gives exactly the same results as the single form on each element.",
 ["inputs", "configurations"], "all source ciphertexts (every digit value at each position), all key-switching levels lvl1->0, 1->half, 2->0, 2->half, 2->1, 2->2, 3->1, all batch sizes",
 "iks.cpp decrypts bits for a few levels, tolerating errors up to 1/8; biased digit rounding or a lost digit is far below that threshold.",
 ["include/keyswitch.hpp", "include/cloudkey.hpp", "src/keyswitch.cpp"], [("IdentityKeySwitch, CatIdentityKeySwitch, SubsetIdentityKeySwitch", "include/keyswitch.hpp"), ("ikskgen, subikskgen", "include/cloudkey.hpp")], ["phase difference after switching; error mean"])

prop("C14", "Private and TLWE-to-TRLWE key switching apply the intended function",
 "Private key switching turns a TLWE ciphertext of phase x into a TRLWE ciphertext whose phase is x times the secret polynomial the key was generated for (for any such polynomial), and TLWE-to-TRLWE key switching puts x into the constant coefficient and zero elsewhere, each with error within the key-switching noise bound in every coefficient. The subset variants agree with the full ones.",
 ["inputs", "configurations"], "all ciphertexts, all function polynomials (1, secret key, arbitrary small), offered level pairs",
 "Only reached indirectly through circuit bootstrapping tests on bit messages, and tlwe2trlweiks on random bits.",
 ["include/keyswitch.hpp", "include/cloudkey.hpp", "src/keyswitch.cpp"], [("PrivKeySwitch, SubsetPrivKeySwitch, TLWE2TRLWEIKS", "include/keyswitch.hpp"), ("privkskgen, subprivkskgen, tlwe2trlweikskgen", "include/cloudkey.hpp")], ["TRLWE phase minus expected polynomial"])

prop("C15", "Homomorphic automorphism, annihilation and LWE packing are correct",
 "Homomorphic evaluation of X -> X^d maps the phase polynomial through the automorphism for every odd d it has a key for; annihilation keeps the constant coefficient and clears the others. Packing any number of TLWE ciphertexts (powers of two or not) places message j at the documented coefficient of one TRLWE ciphertext, each within the noise bound, for all messages.",
 ["inputs"], "all TRLWE phases, all odd d, every list length 1..n, all messages",
 "annihilate/automorphism/evalauto/packing tests use one d or one list length and bit messages.",
 ["include/keyswitch.hpp", "include/cloudkey.hpp"], [("EvalAuto, AnnihilateKeySwitching, PackLWEs, PackLWEsLSB, TLWE2TRLWEChengsPacking, TLWE2TRLWEPacking", "include/keyswitch.hpp"), ("evalautokeygen, annihilatekeygen", "include/cloudkey.hpp")], ["phase polynomial vs. model"])

prop("C16", "Programmable bootstrapping evaluates any test vector with fresh noise",
 "Blind rotation and bootstrapping (FFT, NTT and RAINTT keys, polynomial and TRLWE test vectors) return the test-vector entry selected by the input phase, negacyclically, for every test vector and every input phase including the edges of the torus, up to the modulus-switching drift. The output noise obeys the blind-rotation bound independently of the input noise, and the multi-output form returns all requested consecutive entries.",
 ["inputs"], "all test vectors, input phases over the whole torus incl. 0, +-1/4, 1/2 and negative ones, number of outputs 1,2,3,4,8, all offered level pairs and backends",
 "gatebootstrapping*.cpp use the constant +-1/8 test vector and two input phases; a wrong rotation by many steps or noise 1000x larger passes them.",
 ["include/gatebootstrapping.hpp", "include/detwfa.hpp", "include/cloudkey.hpp", "src/gatebootstrapping.cpp"], [("BlindRotate (4 overloads), GateBootstrappingTLWE2TLWE{FFT,NTT,RAINTT}, GateBootstrappingManyLUT", "include/gatebootstrapping.hpp"), ("bkgen, bkfftgen, bknttgen, bkrainttgen", "include/cloudkey.hpp")], ["phase of output vs. test vector entry"])

prop("C17", "Homomorphic gates realise their truth tables, composably without limit",
 "Every two-input, one-input and constant gate, at both ciphertext levels and in both bootstrap/key-switch orders, outputs an encryption of its Boolean function for every input combination and for inputs with any noise that stays inside the gate's decision margin. Output noise is independent of input history, so any circuit of any depth built from the gates decrypts to its plaintext evaluation. The output may be the same object as an input.",
 ["inputs", "programs", "histories"], "all gates, input combinations, levels, orders and random circuits with fan-out and reuse of outputs, inputs with noise up to the decryptable gate margin",
 "gate.cpp evaluates single gates on fresh ciphertexts; composition, non-fresh inputs and the noise margin are not examined.",
 ["include/gate.hpp", "src/gate.cpp", "include/gatebootstrapping.hpp"], [("HomGate and the Hom* wrappers", "include/gate.hpp"), ("GateBootstrapping (both orders)", "include/gatebootstrapping.hpp")], ["decrypted outputs; output phase vs. +-mu"])

prop("C18", "Every multiplexer variant selects the same input",
 "All homomorphic multiplexers (plain MUX and NMUX at both levels, the variants without final extraction and/or key switching, and the multiplexer on TRLWE inputs) return c1 when the selector is 1 and c0 when it is 0, for every combination and input history (whatever was evaluated before on the same or related ciphertexts), with output noise small enough to continue the circuit; the output may be the same object as an input. The variants returning a TRLWE sample carry the selected bit in the coefficient that is subsequently extracted.",
 ["inputs", "programs"], "all 8 input combinations, all variants and level pairs, fresh and bootstrapped inputs",
 "gate.cpp tests MUX/NMUX on fresh inputs; several variants (without sample extraction, TRLWE input) are never executed by any test.",
 ["include/gate.hpp", "src/gate.cpp"], [("HomMUX, HomNMUX, HomMUXwoIKSandSE, HomMUXwoSE, ExtractSwitchAndHomMUX", "include/gate.hpp, src/gate.cpp")], ["decrypted outputs; output phase vs. +-mu"])

prop("C19", "Circuit bootstrapping yields a usable TRGSW of the encrypted bit",
 "Circuit bootstrapping of any TLWE bit (plain, inverted, both at once, subset-key and FFT-output forms, at each offered level) yields a TRGSW encryption of that bit (or its negation): external products with it multiply by 0 or 1 and CMUXes controlled by it select correctly, with noise within the scheme's bound for every gadget row. The inverted output always encrypts the complement of the plain one.",
 ["inputs"], "both bits, all admissible input phases, all variants, all rows of the result, data polynomials with arbitrary contents",
 "Tests bootstrap encryptions of one only and check signs of decrypted bits; an all-ones result, wrong rows masked by large margins, or excess noise go unnoticed.",
 ["include/circuitbootstrapping.hpp", "src/circuitbootstrapping.cpp"], [("CircuitBootstrapping, ...FFT, ...Sub, ...SubFFT, ...FFTInv, ...FFTwithInv, CBtestvector", "include/circuitbootstrapping.hpp")], ["row phases of the TRGSW; CMUX output"])

prop("C20", "Levelled (BFV-style) TRLWE arithmetic computes plaintext ring arithmetic",
 "Addition and multiplication (with and without relinearisation) of integer-encoded TRLWE ciphertexts decrypt to the sum and negacyclic product of the plaintext polynomials modulo the plaintext modulus, for all plaintext polynomials. Relinearisation does not change the decrypted value.",
 ["inputs"], "all plaintext polynomials (0..t-1 in every coefficient, sparse/dense/extreme), fresh encryptions",
 "trlwemult.cpp uses uniform random plaintexts and prints rather than covering extremes or the noise margin.",
 ["include/bfv++.hpp", "include/cloudkey.hpp", "include/mulfft.hpp"], [("TRLWEMultWithoutRelinerization, relinKeySwitch, Relinearization, TRLWEMult", "include/bfv++.hpp"), ("relinKeygen, relinKeyFFTgen", "include/cloudkey.hpp")], ["decrypted polynomial; phase error"])

prop("C21", "Homomorphic digit decomposition returns every digit of every integer",
 "Homomorphic decomposition of an encrypted integer returns, for every integer in the plaintext space, ciphertexts of all its base-2^b digits in order, each decrypting correctly. This includes integers whose lower digits are at carry boundaries (all zeros, all ones).",
 ["inputs"], "all integers of numdigit*basebit bits, with digit-boundary values weighted",
 "homdecomp.cpp tries a few uniformly random integers; boundary digit patterns have negligible probability there.",
 ["include/homdecomp.hpp"], [("HomDecomp, subtractpolygen", "include/homdecomp.hpp")], ["decrypted digits"])

prop("C22", "Serialising and reloading keys, parameters and packets loses nothing",
 "Writing any secret key, parameter set, evaluation key (with any subset of key material present) or I/O packet to a binary archive and reading it back yields an object equal in every part, which behaves identically when used. Reading a truncated archive is reported as an error rather than silently producing an object.",
 ["inputs", "histories", "fault_sequences"], "all objects, all subsets of present key material, all packet shapes, truncation at any byte",
 "cereal.cpp/evalkeygen.cpp serialise a few fixed objects and never compare all fields.",
 ["include/key.hpp", "include/cloudkey.hpp", "include/io-packet.hpp", "include/lweParams.hpp", "include/INTorus.hpp"], [("serialize members", "include/key.hpp:SecretKey, include/cloudkey.hpp:EvalKey, include/io-packet.hpp:IOpacket, include/lweParams.hpp")], ["object fields after reload"])

prop("C23", "The evaluation key is a faithful registry of the keys put into it",
 "After any sequence of key generations into an evaluation key, each lookup returns the key material most recently generated for that level (and name), which is valid for the secret key it was generated from; generating one key never disturbs another, and looking up a name never generated is an error. Copies of an evaluation key keep referring to valid material after the original is gone or is extended.",
 ["histories"], "all sequences of emplace/lookup/copy operations over all key kinds and names, several secret keys",
 "Tests emplace a fixed set of keys once for one secret key, and never regenerate, rename, mix secret keys or copy.",
 ["include/cloudkey.hpp", "src/cloudkey.cpp"], [("EvalKey::emplace*, EvalKey::get*", "include/cloudkey.hpp:EvalKey")], ["lookup results decrypted against the right secret key"],
 [("bk*/bkfft*/iksk*/privksk* members", "shared pointers to key material per level/name", "include/cloudkey.hpp:EvalKey")])

prop("C24", "Evaluation is deterministic and safe under concurrent use of shared keys",
 "Homomorphic evaluation is a function of its key and input ciphertexts: repeating it, in any order, interleaved with other operations or concurrently from many threads sharing the same evaluation key, yields bit-identical outputs and leaves inputs and keys unmodified. Concurrent encryption from many threads yields valid, mutually independent ciphertexts.",
 ["schedules", "histories"], "all interleavings of evaluation, encryption and decryption calls from any number of threads on shared keys",
 "All tests are single-threaded apart from internal parallel loops and never compare repeated evaluations.",
 ["include/gatebootstrapping.hpp", "include/mulfft.hpp", "include/utils.hpp", "thirdparties/spqlios/fft_processor_spqlios.cpp"], [("thread_local FFT processors and generators", "thirdparties/spqlios/fft_processor_spqlios.cpp, include/utils.hpp"), ("const evaluation-key references", "include/gate.hpp")], ["raw words of outputs and inputs across threads"],
 [("fftplvl1/fftplvl2/fftplvl3 buffers", "per-thread FFT work space", "thirdparties/spqlios/fft_processor_spqlios.cpp"), ("generator", "per-thread CSPRNG", "include/utils.hpp")])

prop("C25", "Valid API calls are memory-safe, leak-free and independent of memory contents",
 "For every valid call sequence - encryption, decryption, polynomial operations at all boundary exponents and indices, key generation, key switching, bootstrapping, packing, memory lookup - the library accesses only the objects it was given and its own storage (also in the FFT assembly), works wherever the language allows an object to lie and from client programs compiled without the library's vector options, computes nothing from storage that was never written (results do not depend on what memory contained before), leaves inputs declared const and neighbouring memory unchanged, frees what it allocated in the way it was allocated (operations, threads that end and evaluation keys leave the heap as it was), and runs into no other undefined behaviour (misalignment, out-of-range shifts and conversions, array bounds).",
 ["inputs", "histories"], "all API calls with valid boundary arguments, in generated order, between guard pages, on garbage-filled memory, and in instrumented builds",
 "The tests run uninstrumented and with fixed arguments; overruns that land in adjacent storage, reads of storage that happens to be zero and leaks do not change their outcome.",
 ["include/keyswitch.hpp", "include/trlwe.hpp", "include/trgsw.hpp", "include/utils.hpp", "include/cmuxmem.hpp", "include/cloudkey.hpp", "src/gate.cpp", "thirdparties/spqlios/fft_processor_spqlios.cpp"],
 [("index arithmetic in all loops", "include/*.hpp"), ("FFT tables per thread", "thirdparties/spqlios/fft_processor_spqlios.cpp"), ("ownership of key parts", "include/cloudkey.hpp:EvalKey")],
 ["sanitizer reports, faults at guard pages, results under different memory contents, heap size after repetitions"])

prop("C26", "Every supported parameter set and option provides the same functionality",
 "Built with each selectable parameter set or algorithm option that the sources support (Concrete, TFHE-rs, compressed, ternary keys with either CMUX method, key bundling, optimal decomposition, without Randen, AVX-512 transforms), the library satisfies the same functional specification as by default, for all inputs: encryption round-trips with the configured noise, and, where the option offers them, key switching, external products, CMUX, packing, bootstrapping (FFT backend; the NTT and RAINTT backends for binary keys), gates and multiplexers have the specified results within the noise bounds of the option's parameters.",
 ["configurations", "inputs"], "all build-time parameter options, with the same generated checks as the default build",
 "The test suite is built and run for a single configuration (the default 128-bit set) only.",
 ["include/params/concrete.hpp", "include/params/tfhe-rs.hpp", "include/params/compress.hpp", "include/params/ternary.hpp", "include/keybundle.hpp", "include/detwfa.hpp", "include/trgsw.hpp", "include/utils.hpp"],
 [("parameter structs selected by USE_* macros", "include/params.hpp"), ("KeyBundleFFT", "include/keybundle.hpp"), ("ternary CMUX", "include/detwfa.hpp"), ("optimal decomposition", "include/trgsw.hpp:Decomposition"), ("CenteredBinomial", "include/utils.hpp")], ["decrypted outputs and phases per configuration"])

prop("C27", "The client/server workflow through files is correct end to end",
 "Keys generated by a client process, exported to files and loaded by a server process (for one or several clients at once, in one or several threads) evaluate any circuit of gates and multiplexers on ciphertexts that travel as files between client and server processes, at both ciphertext levels, in either archive format and as plain vectors or I/O packets; the results, also those of circuits continued over several server processes, decrypt with the stored secret key in yet another process to the plaintext evaluation. The programs of the tutorial decide correctly which of any two 16-bit integers is larger, or that they are equal.",
 ["histories", "schedules", "inputs"], "all circuits, inputs, numbers of clients and ways of cutting the work into processes",
 "The tests run in one process with keys they made themselves; nothing ever evaluates with reloaded keys of several clients, and the tutorial programs are not run.",
 ["tutorial/client.cpp", "tutorial/cloud.cpp", "tutorial/verify.cpp", "include/cloudkey.hpp", "include/key.hpp", "include/io-packet.hpp", "include/gate.hpp", "src/key.cpp"],
 [("EvalKey::serialize, SecretKey::serialize, IOpacket::serialize", "include/cloudkey.hpp, include/key.hpp, include/io-packet.hpp"), ("gates on loaded keys", "include/gate.hpp"), ("bootsSymEncrypt / bootsSymDecrypt", "include/tlwe.hpp")],
 ["what the decrypting process prints, exit status of every process"])

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
