"""Registry: what runs for each property. Read by check.py and tools/mkmanifest.py."""
VARIANTS = {
    "default": {"flags": ["-O2", "-DUSE_RANDEN"]},
    "concrete": {"flags": ["-O2", "-DUSE_RANDEN", "-DUSE_CONCRETE"]},
    "tfhe-rs": {"flags": ["-O2", "-DUSE_RANDEN", "-DUSE_TFHE_RS"]},
    "compress": {"flags": ["-O2", "-DUSE_RANDEN", "-DUSE_COMPRESS"]},
    "ternary": {"flags": ["-O2", "-DUSE_RANDEN", "-DUSE_TERNARY"]},
    "ternary-cmux": {"flags": ["-O2", "-DUSE_RANDEN", "-DUSE_TERNARY", "-DUSE_TERNARY_CMUX"]},
    "key-bundle": {"flags": ["-O2", "-DUSE_RANDEN", "-DUSE_KEY_BUNDLE"]},
    "optimal": {"flags": ["-O2", "-DUSE_RANDEN", "-DUSE_OPTIMAL_DECOMPOSITION"]},
    "no-randen": {"flags": ["-O2"]},
    # the option only swaps the FFT's assembly and tables (CMake defines nothing)
    "avx512": {"flags": ["-O3", "-DUSE_RANDEN"], "fft": "avx512", "cpu": ["avx512f", "avx512dq", "avx512vl"]},
    # a program that only includes the headers, without the library's -march
    "plain": {"flags": ["-O2", "-DUSE_RANDEN"], "hflags": ["-march=x86-64", "-maes"]},
    "asan": {"flags": ["-O1", "-g1", "-DUSE_RANDEN", "-fsanitize=address,undefined,float-cast-overflow", "-fno-sanitize-recover=undefined", "-fno-omit-frame-pointer"]},
    "tsan": {"flags": ["-O1", "-g1", "-DUSE_RANDEN", "-fsanitize=thread"]},
}
NOT_APPLICABLE = {}
CHECKS = {}


def check(pid, technique, note, rule, runs, **kw):
    CHECKS[pid] = dict(technique=technique, note=note, rule=rule,
                       runs=[dict({"variant": "default", "harness": pid + ".cpp"}, **r) for r in runs], **kw)


check("C01", "property-based testing of operation chains against a 128-bit integer model",
      "Random chains with boundary-biased operands; every shift amount per operand. A search, not an enumeration of the operands.",
      "a case is a chain of field operations (or one operand with all 192 shifts / a power / a construction / an aliased operation) on operands drawn from boundary classes and uniformly; non-trivial: operands other than 0 and 1",
      [{"scale": 4}])
check("C02", "property-based testing against schoolbook negacyclic products",
      "Transform sizes 2^8..2^12; field products are compared on sampled coefficients (all of them at level 1), round trips on all.",
      "a case is a pair of polynomials (zero, constant, monomial, sparse, boundary-valued, alternating, uniform) and a transform size; non-trivial: operands not zero",
      [{"scale": 3}])
check("C03", "property-based testing of Montgomery primitives and transforms against exact modular arithmetic",
      "Operands are restricted to the input range each primitive accepts (derived from its callers); products are compared on 48 coefficients per case, round trips on all.",
      "a case is one primitive with boundary-biased residues, or a pair of residue polynomials and a size 2^7..2^13; non-trivial: operands other than 0 and 1",
      [{"scale": 3}])
check("C04", "property-based testing against schoolbook products with an analytic rounding bound",
      "The bound is C*2^-53*|a|_2*|b|_2 + 1 with C = 24, three times the largest error seen on structured operands; it trusts the host's IEEE arithmetic.",
      "a case is a pair (or a sum) of polynomials, the small one up to 2^13 in magnitude; non-trivial: operands not zero",
      [{"scale": 3}])
check("C05", "property-based testing against the definition of the ring operations",
      "All exponents 0..2n and all odd automorphism indices are in the generator, boundary ones weighted. The pointwise Nussbaumer product is outside the property (see DESIGN.md).",
      "a case is a polynomial, an exponent (or odd index) and a ring dimension; non-trivial: polynomial and exponent not zero",
      [{"scale": 20}])
check("C06", "property-based testing of the digit range and the reconstruction error",
      "Values are boundary-weighted; both rings, plus the parameter sets of other variants.",
      "a case is a polynomial of torus words near digit boundaries or uniform; non-trivial: not zero",
      [{"scale": 10}])
check("C07", "property-based testing with independent phase computation and two-sided noise statistics",
      "Statistical bounds at 8 to 9.5 standard deviations; the noise law is checked on mean and standard deviation, not on its shape.",
      "a case is a fresh key, a level, a message (or bit vector) and a noise level; non-trivial: the message is not zero or a noise batch was measured",
      [{"scale": 2}])
check("C08", "property-based testing of every coefficient and row phase against schoolbook arithmetic",
      "Rows of transformed representations are read back through an external product with a single digit; rounding allowances are analytic.",
      "a case is a fresh key, a ring level, a message polynomial, a noise level and a representation; non-trivial: the message is not zero",
      [{"scale": 2}, {"variant": "concrete", "scale": 0.6}])
check("C09", "property-based testing of algebraic identities on arbitrary samples and keys",
      "Identities are exact for TLWE samples; ring phases are compared up to the rounding of the library's product. Parameter sets with k = 1, 2 and 3.",
      "a case is a key, samples of arbitrary words, integer coefficients and indices; non-trivial: samples and coefficients not zero",
      [{"scale": 4}, {"variant": "concrete", "scale": 2}, {"variant": "tfhe-rs", "scale": 2}])
check("C10", "property-based statistical testing and entropy perturbation with an interposed random_device",
      "Statistical tests at 8.5 standard deviations; unpredictability is reduced to: every output is a function of, and depends on, at least 8 words of the system source. The quality of the source and of Randen are trusted.",
      "a case is a batch of keys, encryptions or entropy perturbations over levels, threads and APIs; every case is non-trivial",
      [{}])
check("C11", "property-based testing against exact phase products with analytic noise bounds",
      "Rounding of double precision is allowed for by an analytic term with a constant about twice the largest seen; statistical bounds at 9.5 standard deviations.",
      "a case is a fresh key, a ring, a backend, a small message polynomial, a TRGSW noise level and an input sample (fresh, noiseless, trivial, adversarial words, aligned to the gadget); non-trivial: message polynomial not zero",
      [{"scale": 2}, {"variant": "concrete", "scale": 0.5}, {"variant": "tfhe-rs", "scale": 0.5}])
check("C12", "stateful property-based testing of CMUX, RAM and ROM against plain arrays of phases",
      "RAM sizes 2^2..2^12, ROM address/width splits listed in the harness; selectors are fresh TRGSW encryptions (bootstrapped ones are C19's).",
      "a case is a fresh key with a selector and two samples, an exponent and a sample, a history of RAM reads and writes, or a ROM and an address; every case is non-trivial",
      [{"scale": 2}, {"variant": "concrete", "scale": 0.3}, {"variant": "tfhe-rs", "scale": 0.3}])
check("C13", "property-based testing of key-switched phases against analytic noise bounds and exact rounding relations",
      "Every level pair offered; big keys are shared by the cases of a run, smaller ones are also generated per case, with chosen secret keys. Statistical bounds at 9.5 standard deviations.",
      "a case is a level pair, a key pair (shared or fresh) and up to 24 samples (trivial, boundary words, noiseless, fresh); non-trivial: mask not zero",
      [{}, {"variant": "concrete", "scale": 0.3}, {"variant": "tfhe-rs", "scale": 0.15}])
check("C14", "property-based testing of key-switched ring phases against the source phase times the secret polynomial",
      "The level-2 to level-2 private key (2.5 GB) only in the thorough tier. Small switching parameters, outside the predefined ones, are used to draw fresh keys and secret polynomials per case.",
      "a case is a level pair, a key (shared or fresh, for 1, the secret key, small or torus polynomials) and samples (trivial, alternating, noiseless, fresh); non-trivial: secret polynomial not zero",
      [{}, {"env": {"C14_LVL22": "1"}, "thorough_only": True, "scale": 0.5}, {"variant": "concrete", "scale": 0.3}])

check("C15", "property-based testing of automorphism, annihilation and packing against the mapped phase polynomial",
      "Fresh keys per case; every list length 1..n in the generator, boundary ones weighted. Bounds as in C11 (one external product per key polynomial and step).",
      "a case is a fresh key and: a sample with a history of automorphisms, samples to annihilate, or lists of TLWE samples to pack in one of the two orders; non-trivial: all but one-element lists",
      [{"scale": 10}, {"variant": "concrete", "scale": 3}, {"variant": "tfhe-rs", "scale": 3}])
check("C16", "property-based testing of rotated and bootstrapped phases against the selected test-vector entries",
      "Keys are shared by the cases of a run (one secret key per seed). The rotation may differ from the input's phase by the drift of modulus switching (8 standard deviations); its law is checked on batches. Noise limits at 9.5 standard deviations of the analytic bound.",
      "a case is a level pair, a backend, a test vector (constant, tables, monomial, boundary, uniform; or a TRLWE sample), a number of outputs and an input (trivial, coarse mask, noiseless, fresh, phases at multiples of 1/8 and anywhere); non-trivial: test vector not zero",
      [{}, {"variant": "concrete", "scale": 0.3}, {"variant": "tfhe-rs", "scale": 0.3}])
check("C17", "model-based property testing of single gates and random circuits against Boolean evaluation",
      "Keys are shared by the cases of a run. Input errors up to what is left of the gate margin after the switching noise and the drift (9.5 and 8 standard deviations); circuits of up to 48 gates (192 thorough) with fan-out, in-place outputs and constants.",
      "a case is one gate with two operands (trivial, noiseless, off by up to the margin, fresh; aliased or not) in one of eight level/order configurations, or a random circuit; every case but one-gate circuits is non-trivial",
      [{}, {"variant": "concrete", "scale": 0.2}, {"variant": "tfhe-rs", "scale": 0.2}])
check("C18", "property-based testing of every multiplexer against selection, and of chains of multiplexers",
      "Keys are shared by the cases of a run. Input errors up to what is left of the margin after the switching noise and the drift (9.5 and 8 standard deviations).",
      "a case is a multiplexer, three operands (trivial, noiseless, off by up to the margin, fresh; shared or not, output in place of one or not), or a chain of multiplexers and gates; every case is non-trivial",
      [{}, {"variant": "concrete", "scale": 0.3}, {"variant": "tfhe-rs", "scale": 0.3}])
check("C19", "property-based testing of the exact phase of every TRGSW row, and of products and selections with it",
      "Keys are shared by the cases of a run. The level-2 output (5 GB of keys) only in the thorough tier. Input errors up to what is left of the margin after the switching noise and the drift.",
      "a case is a form (plain, FFT, inverted, both, subset) at a level, an input bit (trivial, noiseless, off by up to the margin, fresh) and two samples to multiply and select; every case is non-trivial",
      [{}, {"variant": "concrete", "scale": 0.4}, {"env": {"C19_LVL22": "1"}, "thorough_only": True, "scale": 0.5}])
check("C20", "property-based testing of rescaled products against exact integer products, and of decryptions against the plaintext ring",
      "Defined for one key polynomial and 32-bit words (the default level 1). One multiplication deep, as the parameters allow; TLWE products against the phase only (no predefined parameters leave room for the message).",
      "a case is a fresh key and two samples (fresh, sums, noiseless, trivial, arbitrary words), or a three-part sample to relinearise, or a history of linear operations; non-trivial: factors not zero",
      [{"scale": 4}])
check("C21", "property-based testing of every digit's phase and decryption against the digits of the integer",
      "Digits of 1 to 4 bits (more leave no margin for the noise), up to 32 of them. The predefined parameters leave about five standard deviations at 4 bits: a single wrong digit is accepted only if repetitions of the same integer confirm it as chance.",
      "a case is a level chain, a digit layout and an integer (zeros, ones, single bits, runs, equal digits, digits at the decision boundary, random) encrypted trivially, without or with noise; non-trivial: integer not zero",
      [{}, {"variant": "concrete", "scale": 0.3}, {"variant": "tfhe-rs", "scale": 0.3}])
check("C22", "property-based round-trip testing and truncation fault injection on generated objects",
      "Binary and portable binary archives in memory (what the library's own users use); parts over 0.9 GB only in the thorough tier. Truncations only: other corruptions of an archive carry no guarantee.",
      "a case is a parameter set, secret key, packet, evaluation key with a subset of its parts filled with arbitrary words, or several of these in one archive, and places to cut the archive; non-trivial: all but empty packets",
      [{}])
check("C23", "stateful model-based property testing of generation, conversion, copy and lookup histories against a model registry",
      "Words of looked-up material are compared with a digest taken right after generation (every word at the end of a history), validity by using the material with coarse noise limits. Unnamed material that was never generated has no lookup error in the API and is not looked up.",
      "a case is one kind of material, the parts for circuit bootstrapping, or a history over up to 4 copies, 3 secret keys and 8 names; non-trivial: at least two slots filled at the end",
      [{}, {"variant": "concrete", "scale": 0.15}])
check("C24", "property-based testing of repeated, reordered and concurrent executions of generated programs against their first execution; ThreadSanitizer as a further oracle",
      "Schedules are those of the operating system (2 to 32 threads, 4 processes at a time), not enumerated. ThreadSanitizer sees the C++ code, not the FFT assembly.",
      "a case is a set of inputs and a list of operations over all backends, executed in generated orders and by 2..32 threads; or 2..8 threads encrypting; or a process whose very first library calls are concurrent; non-trivial: more than two operations",
      [{"jobs": 4, "scale": 0.6}, {"harness": "C24cold.cpp", "label": "cold", "scale": 10}, {"variant": "tsan", "jobs": 4, "scale": 0.12}, {"variant": "tsan", "label": "tsan-cold", "harness": "C24cold.cpp", "jobs": 4}])

def asan(h, scale, **kw):
    return dict({"variant": "asan", "harness": h + ".cpp", "label": "asan-" + h, "scale": scale}, **kw)


check("C25", "property-based testing between guard pages and on garbage-filled memory (results must not depend on it), allocation neutrality, and the other properties' generators under AddressSanitizer and UndefinedBehaviorSanitizer",
      "Guard pages also stop the FFT assembly, which the sanitizers do not see. Reads of unwritten memory are found by their effect on the result. Private key switching uses small parameters under AddressSanitizer in the quick tier.",
      "a case is an operation with boundary or random arguments, a kind of garbage, a placement before or after a guard page and a frame alignment; or a list of operations repeated in threads that end; or a generated case of another property in an instrumented build; non-trivial: as defined for those properties, every case of the operations",
      [{}, {"variant": "plain", "label": "plain", "scale": 0.5}, asan("C25", 0.3), asan("C01", 0.3), asan("C02", 0.1), asan("C03", 0.1), asan("C04", 0.1), asan("C05", 0.5), asan("C06", 0.5), asan("C07", 0.08), asan("C08", 0.08),
       asan("C09", 0.2), asan("C10", 0.05), asan("C11", 0.05), asan("C12", 0.05), asan("C15", 0.3), asan("C16", 0.02), asan("C17", 0.03), asan("C18", 0.03),
       *[asan(h, s, thorough_only=True) for h, s in (("C13", 0.05), ("C14", 0.05), ("C19", 0.02), ("C20", 0.1), ("C21", 0.05), ("C22", 0.03), ("C24", 0.05))]])


def opt(variant, h, scale, **kw):
    return dict({"variant": variant, "harness": h + ".cpp", "label": variant + "-" + h, "scale": scale}, **kw)


def opts(variant, **scales):
    return [opt(variant, h, s) for h, s in scales.items()]


check("C26", "property-based testing: the generators and oracles of the other properties on the library built with every other parameter set and option",
      "Concrete and TFHE-rs sets are explored by the properties themselves and, in the thorough tier, here. 80-bit and CGGI19 do not compile (see DESIGN.md). Ternary and bundled keys have no NTT form. Bounds as in the properties, with the option's parameters.",
      "a case is a case of another property in a build with another option; non-trivial: as defined there",
      opts("ternary", C11=0.3, C16=0.3, C17=0.2, C13=0.1, C15=1) + opts("ternary-cmux", C12=0.3, C16=0.3, C17=0.2) + opts("key-bundle", C16=0.3, C17=0.2, C13=0.1, C18=0.2) +
      opts("optimal", C06=2, C11=0.3, C16=0.3, C17=0.2) + opts("no-randen", C07=0.3, C10=0.3, C17=0.2) + opts("compress", C07=0.5, C09=0.5, C13=0.3) +
      opts("concrete", C06=1, C07=0.2) + opts("tfhe-rs", C06=1, C07=0.2) + opts("avx512", C04=1, C11=0.3, C16=0.3, C17=0.2) +
      [opt(v, h, s, thorough_only=True) for v, h, s in (
          ("ternary", "C06", 2), ("ternary", "C07", 0.5), ("ternary", "C12", 0.3), ("ternary", "C18", 0.2), ("ternary", "C19", 0.2), ("ternary", "C21", 0.3),
          ("ternary", "C22", 0.2), ("ternary", "C23", 0.1), ("ternary-cmux", "C18", 0.2), ("ternary-cmux", "C19", 0.2), ("key-bundle", "C06", 2), ("key-bundle", "C07", 0.5),
          ("key-bundle", "C11", 0.3), ("key-bundle", "C19", 0.2), ("key-bundle", "C21", 0.3), ("key-bundle", "C22", 0.2), ("key-bundle", "C23", 0.1), ("optimal", "C12", 0.3),
          ("optimal", "C13", 0.2), ("optimal", "C14", 0.2), ("optimal", "C15", 1), ("no-randen", "C06", 1), ("no-randen", "C13", 0.1), ("avx512", "C02", 1), ("avx512", "C08", 0.2), ("avx512", "C25", 0.2), ("concrete", "C08", 0.2), ("concrete", "C12", 0.1), ("tfhe-rs", "C12", 0.1), ("avx512", "C12", 0.3), ("avx512", "C14", 0.1), ("avx512", "C18", 0.3), ("avx512", "C19", 0.2),
          ("avx512", "C20", 0.5), ("avx512", "C24", 0.2))])
check("C27", "property-based testing of generated multi-process histories against plaintext evaluation",
      "Processes are the harness itself re-executed in a role (key generation, encryption, server, decryption) with an ordinary 8 MB main stack, and the tutorial's programs linked in with main renamed. Only keys for gates travel; other key material is C22's.",
      "a case is one to three clients with their own keys, formats, inputs and circuits, cut into up to three server processes; or a tutorial client with three server inputs; every case is non-trivial",
      [{}])
