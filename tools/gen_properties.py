#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the statements can be diffed)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                          hook_needed=None))
    if observe: d["anchors"]["observe_at"] = observe
    if state: d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    P.append(d)

I, C, S, H, PR = "inputs", "configurations", "schedules", "histories", "programs"

p("C01", "Two-input, one-input and constant gates compute their boolean function",
  "For every gate of the boolean API (NAND, NOR, XNOR, AND, OR, XOR, the four half-negated ANDs/ORs, NOT, COPY and the two constants), in both the bootstrap-first and the key-switch-first overload, the homomorphic circuit evaluated is the documented truth table: the sign of the linear combination of the input phases and the constant offset is the gate's output for all input messages, taken over every ciphertext coordinate and reduced with a bootstrapping whose output amplitude and keys belong to that overload's parameters. Constants, NOT and COPY yield exactly +/-mu, -c and c in every coordinate.",
  [I, C, PR], "every input ciphertext, every overload/parameter instantiation and every shipped parameter set",
  "The gate test decrypts a few random bits per gate with one parameter set and one overload order; a wrong sign, offset, coordinate range or amplitude in another overload, in a k>1 parameter set or in a single mask coordinate is not exercised.",
  ["include/gate.hpp", "src/gate.cpp", "include/gatebootstrapping.hpp"],
  [("HomGate linear part and offset", "include/gate.hpp"), ("GateBootstrapping overloads", "include/gatebootstrapping.hpp")],
  ["decryption of the gate's result"])
p("C02", "Multiplexer gates select the right input",
  "Every multiplexer form (full, negated, without sample extraction, without key switching, and the one working on ring ciphertexts) bootstraps (select AND c1) and (NOT select AND c0), adds the two and adds exactly mu to the constant coefficient, so the output is c1 when select is true and c0 otherwise, with the same +/-mu encoding as every other gate (negated for the negated form). This covers all coordinates of every component for any module rank.",
  [I, C, PR], "all selector/input messages, all coordinates, all instantiable parameter combinations",
  "Tests cover the scalar multiplexers at one parameter set; the ring forms and the lvl0 forms are barely or not tested.",
  ["include/gate.hpp", "src/gate.cpp"],
  [("HomMUX/HomNMUX/HomMUXwoSE/HomMUXwoIKSandSE", "include/gate.hpp"), ("ExtractSwitchAndHomMUX", "src/gate.cpp")],
  ["decryption of the multiplexer result"])
p("C03", "Homomorphic operations may be used in place",
  "Gates, multiplexers, the external products and the blind-rotation accumulator steps give the same result when the output object is also one of the ciphertext inputs (CMUX: the 'true' input) as when it is a separate object: no output element is written before every input element at an overlapping position that is still needed has been read.",
  [I, PR], "every call in which the output reference aliases any of the ciphertext inputs",
  "Tests call the operations with distinct objects (or one fixed aliasing); tutorial code and the library's own callers alias freely.",
  ["include/gate.hpp", "include/trgsw.hpp", "include/detwfa.hpp", "include/cmuxmem.hpp", "tutorial/cloud.cpp"],
  [("element-wise loops that read position i before writing position i", "include/gate.hpp"), ("accumulate in locals, write result last", "include/trgsw.hpp")],
  ["result of op(x, x, y) compared with op(z, x, y)"])
p("C04", "Encryption and phase are exact duals over every coordinate",
  "For each scalar and ring encryption function the body is noise plus message plus the sum over every key component of mask times key, and each phase/decryption function subtracts the same products, so that phase(encrypt(m)) is exactly m plus noise for any key and any module rank; the ring form pairs the mask component with the key slice of the same component.",
  [I, C], "every plaintext, key and mask value, every parameter set including module rank above one",
  "Round-trip tests use rank one almost exclusively and cannot distinguish an error that cancels between encrypt and decrypt or affects coordinates whose key bit is zero.",
  ["include/tlwe.hpp", "include/trlwe.hpp"],
  [("tlweSymEncrypt / tlweSymPhase", "include/tlwe.hpp"), ("trlweSymEncryptZero / trlwePhase / trlweSymIntDecrypt", "include/trlwe.hpp")],
  ["phase of a fresh ciphertext"])
p("C05", "Every fresh ciphertext gets fresh uniform masks and its level's noise",
  "Each encryption draws every mask coefficient of every component uniformly from the whole torus range (or the level's modulus) by a separate call to the library's CSPRNG, and adds an independently drawn noise sample of the requested width to every body coefficient; encryption wrappers that take no noise argument pass the level's own noise parameter. No mask or noise sample is reused, truncated, skipped or derived from data.",
  [I, H, C], "all plaintexts and keys, all coefficients, all calls",
  "A reused, constant or missing mask/noise still decrypts correctly, so functional tests pass.",
  ["include/tlwe.hpp", "include/trlwe.hpp", "include/trgsw.hpp", "include/utils.hpp"],
  [("Torusdist(generator) per coefficient", "include/tlwe.hpp"), ("ModularGaussian/CenteredBinomial per body coefficient", "include/utils.hpp")])
p("C06", "Index maps of extraction and monomial multiplication are exact",
  "Sample extraction at any index, its inverse, multiplication by X^a and by X^a-1 for any exponent in [0,2N), and the Galois map X->X^d move each coefficient to the position and with the sign given by arithmetic modulo X^N+1, for every coefficient, every component and every parameter set.",
  [I, C], "all coefficients, all indices in [0,N), all exponents in [0,2N), all parameter sets",
  "Tests sample few exponents/indices (extraction is only called with index 0 in gates).",
  ["include/trlwe.hpp", "include/utils.hpp"],
  [("SampleExtractIndex/InvSampleExtractIndex", "include/trlwe.hpp"), ("PolynomialMulByXai/PolynomialMulByXaiMinusOne/Automorphism", "include/utils.hpp")])
p("C07", "Gadget encryption, decomposition and external product agree row by row",
  "The gadget ciphertext of a polynomial p carries p times the gadget weight of level i on component k in row k*l+i and nowhere else; the decomposition emits for every coefficient l balanced digits, digit i being the i-th most significant base-B digit of the rounded value; and every external product multiplies digit i of component k with row k*l+i, over all levels and components, in the FFT, NTT and half forms.",
  [I, C], "all polynomials and ciphertexts, all levels, components and coefficients, all parameter sets",
  "With rank one and few levels tests cannot see swapped or missing rows of higher components, nor a digit/weight mismatch hidden in the noise.",
  ["include/trgsw.hpp", "include/detwfa.hpp", "include/cloudkey.hpp"],
  [("hgen + trgswSymEncrypt/halftrgswSymEncrypt", "include/trgsw.hpp"), ("Decomposition", "include/trgsw.hpp"), ("trgswfftExternalProduct, trgswnttExternalProduct, halftrgswfftExternalProduct", "include/trgsw.hpp")])
p("C08", "Key-switching keys and key switches agree on digits, entries and coverage",
  "For every kind of key switch (to a scalar ciphertext, several at once, subset, to a ring ciphertext, private-functional) the key generator's entry (i,j,u) encrypts (u+1) times the i-th source key coordinate (times the function) at the weight of digit j, and the switch subtracts, for every source coordinate i and every digit j, exactly the entry selected by that digit's value (adding it for negative digits), with the body carried over at the right scale. No coordinate, digit or output coefficient is skipped.",
  [I, C], "all ciphertexts and keys, all coordinates and digits, all parameter sets",
  "A wrong entry is invisible unless the coordinate's key bit and digit hit it; low-weight digit errors drown in noise, and k>1 sets are not built by the tests.",
  ["include/keyswitch.hpp", "include/cloudkey.hpp"],
  [("IdentityKeySwitch/CatIdentityKeySwitch/SubsetIdentityKeySwitch/PrivKeySwitch/SubsetPrivKeySwitch/TLWE2TRLWEIKS", "include/keyswitch.hpp"), ("ikskgen/subikskgen/privkskgen/subprivkskgen/tlwe2trlweikskgen", "include/cloudkey.hpp")])
p("C09", "CMUX, memory multiplexer trees and lookups select by their control bits",
  "A CMUX returns c0 + control * (c1 - c0) in every coefficient of every component; the accumulator step of blind rotation returns acc + control * (X^a - 1) acc; each memory-tree level combines the pair of entries differing in the address bit it consumes and uses each address bit exactly once; the horizontal lookup rotates by N/2^bit for its bit.",
  [I, C, PR], "all controls, data and addresses, all components",
  "The tree tests use one address width and rank one.",
  ["include/detwfa.hpp", "include/cmuxmem.hpp", "include/keybundle.hpp"],
  [("CMUXFFT and CMUX*withPolynomialMulByXaiMinusOne", "include/detwfa.hpp"), ("RAMUX/UROMUX/LROMUX/RAMwriteBar", "include/cmuxmem.hpp")])
p("C10", "Blind rotation visits every key coordinate once with its own rounded exponent",
  "Blind rotation starts from the test vector rotated by minus the body scaled to 2N and then applies, for every source coordinate exactly once (skipping only zero exponents), the controlled rotation by that coordinate's mask value rounded to 2N with that coordinate's bootstrapping-key element; the gate bootstrapping wrappers run it on the given ciphertext with the given test vector and extract coefficient i for output i. The bootstrapping-key generators encrypt, for coordinate i and each nonzero key value v, the indicator that coordinate i equals v.",
  [I, C], "all ciphertexts, all coordinates, all (ternary, binary) key distributions and parameter sets",
  "A skipped or mis-rounded coordinate only adds noise-like error that a handful of random bootstraps rarely expose.",
  ["include/gatebootstrapping.hpp", "include/detwfa.hpp", "include/cloudkey.hpp"],
  [("BlindRotate overloads", "include/gatebootstrapping.hpp"), ("bkgen/bkfftgen/bknttgen/bkrainttgen", "include/cloudkey.hpp")])
p("C11", "Circuit bootstrapping assembles every row of the gadget ciphertext",
  "Circuit bootstrapping produces row k*l+i by private key switching, with the key registered for component k, the bootstrap output of level i corrected by half that level's weight; the key setup registers minus the key slice of component k under component k and the constant one under the last; the inverse forms yield the gadget encryption of the complement, one minus the bit, on the diagonal of every component.",
  [I, C, PR], "all ciphertexts, all rows and components, all parameter sets including module rank above one",
  "Tests use rank one only, and a wrong low-weight row is masked by noise.",
  ["include/circuitbootstrapping.hpp", "include/cloudkey.hpp"],
  [("CircuitBootstrapping*", "include/circuitbootstrapping.hpp"), ("emplaceprivksk4cb/emplacesubprivksk4cb", "include/cloudkey.hpp")])
p("C12", "Results are fully determined by the inputs",
  "Every public operation assigns every element of its output, and no value it computes or any branch it takes depends on memory that the call has not initialised: not on the previous content of the output object and not on an uninitialised local or freshly allocated object.",
  [I, H, C], "all inputs and every previous content of the output object and of reused memory",
  "Tests usually pass zeroed or fresh objects, where stale content happens to be zero, and miss an element that is never written.",
  ["include/keyswitch.hpp", "include/trgsw.hpp", "include/detwfa.hpp", "include/gatebootstrapping.hpp", "include/circuitbootstrapping.hpp", "include/cloudkey.hpp", "src/key.cpp"],
  [("explicit zeroing / full-range assignment loops", "include/*.hpp")])
p("C13", "No array access leaves its array",
  "In every instantiation that a shipped parameter set admits, each element access of the library's fixed-size arrays stays inside the array for every ciphertext, key, exponent in [0,2N] and index argument in range; in particular table indices computed from ciphertext digits stay inside the key tables and loops never run across an inner array into its neighbour.",
  [I, C], "all inputs, all shipped parameter sets",
  "Out-of-range accesses that land in neighbouring storage do not change test results.",
  ["include/keyswitch.hpp", "include/utils.hpp", "include/trgsw.hpp", "include/cmuxmem.hpp", "include/gate.hpp"],
  [("loop bounds k*n and (k+1), digit ranges", "include/*.hpp")])
p("C14", "No undefined shifts or float-to-integer conversions",
  "No operation of the library shifts by a negative amount or by at least the width of the shifted type, and noise or rounding code never converts a possibly negative or out-of-range floating-point value directly to an unsigned torus integer; the results therefore do not depend on the compiler, optimisation level or vector instruction set.",
  [I, C], "all inputs, all shipped parameter sets, all compilers and instruction sets",
  "The behaviour is right on the one compiler/CPU the tests run on.",
  ["include/utils.hpp", "include/keyswitch.hpp", "include/cloudkey.hpp", "include/trgsw.hpp", "thirdparties/spqlios/fft_processor_spqlios.cpp"],
  [("shift amounts derived from digits/Bgbit/basebit", "include/*.hpp"), ("dtot16/dtot32/ModularGaussian", "include/utils.hpp")])
p("C15", "A new secret key is random at every level",
  "Constructing a secret key draws every coordinate of every level's key independently from the CSPRNG, uniformly between that level's minimum and maximum key value, and asking for a level's key returns that level's key and no other.",
  [C, H], "all levels and coordinates, all parameter sets (binary and ternary)",
  "Any fixed or partly uninitialised key decrypts its own ciphertexts.",
  ["src/key.cpp", "include/key.hpp"],
  [("lweKey constructor", "src/key.cpp"), ("lweKey::get", "src/key.cpp")],
  state=[("lweKey", "one key array per level", "include/key.hpp")])
p("C16", "All randomness comes from the per-thread CSPRNG",
  "Every random draw in the library uses the per-thread cryptographic generator seeded from the operating system's entropy source; no other engine, no fixed, time-based or reused seed, and no generator object shared between threads or copied is ever used for keys, masks or noise.",
  [H, S, PR], "all calls, threads and process runs",
  "Statistical tests on a handful of samples cannot tell a predictable generator from a CSPRNG.",
  ["include/utils.hpp", "include/tlwe.hpp", "include/trlwe.hpp", "src/key.cpp", "thirdparties/randen/randen.h"],
  [("thread_local generator", "include/utils.hpp")],
  state=[("generator", "per-thread CSPRNG", "include/utils.hpp")])
p("C17", "Secret key material leaves only through encryption",
  "Nothing derived from a secret key reaches an evaluation key, a ciphertext or any other public output except as the message or key argument of an encryption function; evaluation-key and ciphertext containers neither store nor serialise a secret key, and evaluation functions take none. Only the secret-key type itself serialises key coefficients.",
  [I, PR, H], "all key generation and evaluation paths",
  "A leaked key coordinate does not change any decrypted result.",
  ["include/cloudkey.hpp", "include/key.hpp", "include/tlwe.hpp", "include/trlwe.hpp", "include/trgsw.hpp", "include/io-packet.hpp"],
  [("key generators pass key coordinates only to SymEncrypt functions", "include/cloudkey.hpp")])
p("C18", "Serialisation preserves every field",
  "Saving and reloading a secret key, an evaluation key, a parameter description or an I/O packet restores every data member: every non-static member is given to the archive exactly once, unconditionally and in the same order for saving and loading.",
  [H, C], "every object state (any subset of keys or ports present) and every archive type",
  "The archive test only round-trips a few members; a member left out is silently empty after reloading.",
  ["include/cloudkey.hpp", "include/key.hpp", "include/io-packet.hpp", "include/lweParams.hpp", "include/params.hpp"],
  [("serialize members", "include/cloudkey.hpp, include/key.hpp, include/io-packet.hpp, include/lweParams.hpp")])
p("C19", "Parameter descriptions detect every mismatch",
  "The parameter description stored with keys takes each field from the constant of the same name of the same level, is completely initialised on construction, and compares unequal to another description whenever any of the compared cryptographic parameters of any level differs.",
  [C, H], "every pair of parameter sets",
  "A test build has one parameter set, so the comparison never sees a difference.",
  ["include/lweParams.hpp"],
  [("lweParams constructor-less aggregates, operator==, serialize", "include/lweParams.hpp")])
p("C20", "The evaluation key stores and returns the key that was asked for",
  "For every parameter type, creating a key in the evaluation key generates it with that parameter's generator from that parameter's own source and target secret keys and stores it in exactly the slot (and under exactly the name) from which the accessor for the same parameter reads; conversions fill every element of the converted key from the element at the same position.",
  [C, H, PR], "every parameter type and key kind, any order of calls",
  "Tests create and read only the few keys they use; slots with equal types (e.g. aliases of one another) compile when mixed up.",
  ["include/cloudkey.hpp"],
  [("EvalKey emplace*/get*", "include/cloudkey.hpp")],
  state=[("EvalKey members", "one shared pointer or map per key kind and parameter", "include/cloudkey.hpp")])
p("C21", "The library is safe to use from several threads",
  "Apart from objects the caller shares explicitly, calls from different threads touch no common mutable state: every variable of static storage duration used by the library is constant after its initialisation or private to a thread, lazily initialised statics do not capture call or object specific values, and evaluation writes only to its own outputs and locals.",
  [S, H], "all interleavings of calls from any number of threads",
  "Tests are mostly single-threaded; races on hidden statics show up rarely and often only as degraded noise.",
  ["include/utils.hpp", "include/mulfft.hpp", "include/cloudkey.hpp", "thirdparties/spqlios/fft_processor_spqlios.h", "thirdparties/spqlios/fft_processor_spqlios.cpp"],
  [("thread_local FFT processors and generator", "thirdparties/spqlios/fft_processor_spqlios.h, include/utils.hpp")])
p("C22", "Parallel loops are free of data races",
  "In each parallelised loop of the library every iteration writes only to variables private to the iteration and to elements selected by that iteration's own loop indices, so results do not depend on the number of threads or their interleaving.",
  [S], "all thread counts and schedules",
  "Race windows are narrow and the test machine's schedule is one of many.",
  ["include/cloudkey.hpp", "include/tlwe.hpp", "include/gatebootstrapping.hpp", "include/homdecomp.hpp"],
  [("omp parallel for bodies", "include/cloudkey.hpp, include/tlwe.hpp, include/gatebootstrapping.hpp, include/homdecomp.hpp")])
p("C23", "Evaluation never modifies its inputs or keys",
  "No homomorphic operation, key accessor or decryption changes an object it receives as read-only input (ciphertexts, evaluation keys, secret keys, tables): constness is never cast away, and no write goes through a reference or pointer obtained from a read-only parameter.",
  [I, H, S], "all operations and inputs, any number of uses of the same key",
  "A key altered by an evaluation shows only in later operations.",
  ["include/gate.hpp", "include/keyswitch.hpp", "include/trgsw.hpp", "include/detwfa.hpp", "include/gatebootstrapping.hpp", "include/circuitbootstrapping.hpp", "include/cloudkey.hpp"],
  [("const reference parameters", "include/*.hpp"), ("EvalKey accessors", "include/cloudkey.hpp")])
p("C24", "Every public template and every selectable parameter set is usable",
  "Every public function template can be instantiated for the parameter types it is documented or declared for, every declared external instantiation has its definition in the library, and the whole library compiles under each selectable parameter-set option.",
  [C, PR], "all public templates, all parameter-set options",
  "An uninstantiated template or an unbuilt configuration is never compiled by the tests.",
  ["include/*.hpp", "include/externs/*.hpp", "include/params/*.hpp", "src/*.cpp", "CMakeLists.txt"],
  [("explicit instantiations", "src/*.cpp"), ("extern template declarations", "include/externs/*.hpp"), ("USE_* options", "include/params.hpp")])
p("C25", "Parameter sets are internally consistent",
  "In every shipped parameter set, derived constants agree with their definition (ring degree a power of two matching its bit length, gadget base 2^Bgbit, key value range, message scales), gadget and key-switch digits fit into the torus width, ciphertext and key container dimensions follow from the constants, and a key-switching parameter carries the noise of the level it switches to (in the two historical sets CGGI16 and CGGI19 the published value for lvl21); a key-switch parameter named ab switches from level a to level b.",
  [C], "every level and key-switch parameter of every parameter set",
  "Only the default set is built by the tests, and inconsistent noise or unused constants do not change results.",
  ["include/params/128bit.hpp", "include/params/CGGI16.hpp", "include/params/CGGI19.hpp", "include/params/compress.hpp", "include/params/concrete.hpp", "include/params/ternary.hpp", "include/params/tfhe-rs.hpp", "include/params.hpp"],
  [("static constexpr members", "include/params/*.hpp")])
p("C26", "Memory is released the way it was obtained",
  "Every allocation made by the library is released exactly once by the deallocation function matching how it was allocated (same array form and same alignment form), and every buffer handed to the FFT kernels is large enough for the instance's ring degree and aligned as the vector kernels need.",
  [H, C], "all object lifetimes and ring degrees",
  "Mismatched deallocation is silent with the default allocator.",
  ["include/cloudkey.hpp", "include/utils.hpp", "thirdparties/spqlios/fft_processor_spqlios.cpp", "thirdparties/spqlios/spqlios-fft-impl.cpp"],
  [("AlignedAllocator, unique_ptr over aligned new", "include/cloudkey.hpp"), ("FFT processor constructor/destructor", "thirdparties/spqlios/fft_processor_spqlios.cpp")])
p("C27", "Ring products and transforms pair the right operands with the right kernel",
  "Each transform uses the FFT processor of its level's ring degree and the kernel of its torus width; the pointwise products multiply complex vectors (real halves first) including the in-place and accumulating forms; ring products transform both operands with the matching signed/unsigned transform, multiply and transform back; the table of X^i-1 holds that polynomial at every index; the BFV style product forms a1*b1, a0*b1+a1*b0 and a0*b0 in this arrangement and relinearises with every digit of the quadratic part against the key row of that digit.",
  [I, C], "all operands, every coefficient, every table index, all parameter sets",
  "The product tests use one ring degree and random operands with a tolerance; a coefficient or table entry that is wrong only at one index, or a kernel/processor of another level, is rarely exercised.",
  ["include/mulfft.hpp", "include/bfv++.hpp", "include/cloudkey.hpp", "thirdparties/spqlios/fft_processor_spqlios.h"],
  [("Twist*/MulInFD/FMAInFD/PolyMul*", "include/mulfft.hpp"), ("XaittGen", "include/mulfft.hpp"), ("TRLWEMult*/relinKeySwitch", "include/bfv++.hpp")])
p("C28", "Packing, digit decomposition and ternary rotation assemble their steps",
  "The composite operations built from single homomorphic steps combine exactly the operands their algorithm names: packing merges the even and odd half lists with the monomial and the automorphism key of that level and annihilates with every automorphism key once; homomorphic digit decomposition bootstraps, subtracts and shifts each digit with the digit's own weight and the matching key switch; the ternary controlled rotation adds the +1 and -1 selector products, each with its own selector ciphertext and its own power of X, to the accumulator.",
  [I, C], "all list lengths that are instantiated, all digits and levels, every coefficient and component, every shipped parameter set",
  "The packing and decomposition tests decrypt one list length or one base; ternary selectors are not built by the default configuration at all, and swapped halves, keys or levels show only for messages that differ there.",
  ["include/keyswitch.hpp", "include/homdecomp.hpp", "include/detwfa.hpp"],
  [("PackLWEs*/AnnihilateKeySwitching/EvalAuto", "include/keyswitch.hpp"), ("HomDecomp", "include/homdecomp.hpp"), ("ternary CMUX steps", "include/detwfa.hpp")])
p("C29", "NTT and Nussbaumer transforms multiply exactly",
  "The integer transforms lose nothing: for every operand the cuHE++ and RAINTT forward transforms, pointwise products and inverse transforms give exactly the product modulo X^N+1 over the transform prime, with no intermediate value leaving its machine type; the modular add, subtract, multiply, shift and Montgomery operations return the congruent residue in their documented range, the switches between torus and residues round as documented, and the inverse Nussbaumer transform of the Nussbaumer transform is the operand times its length.",
  [I, C], "all operands in the documented ranges (torus elements, gadget digits, residues), every coefficient, ring degrees 512 to 2048",
  "The transform tests multiply random operands; a carry, a reduction or a range that is wrong only for extreme coefficients or near the prime is hit with negligible probability.",
  ["include/INTorus.hpp", "include/cuhe++.hpp", "include/raintt.hpp", "include/nussbaumer.hpp"],
  [("INTorus operators", "include/INTorus.hpp"), ("TwistINTT/TwistNTT/PolyMullvl1, tables and twists", "include/cuhe++.hpp, include/raintt.hpp"), ("SREDC, AddMod, SubMod", "include/raintt.hpp"), ("NussbaumerTransform and inverse", "include/nussbaumer.hpp")])
# --- properties that this technique cannot decide -----------------------------------------
p("C50", "Bootstrapping and gates decrypt correctly except with negligible probability",
  "For every parameter set the accumulated noise of a gate, circuit bootstrapping or packing stays below the decoding margin except with the probability the parameter set promises.",
  [I, C, H], "all keys, ciphertexts and circuits", "Tests sample a few dozen evaluations; the failure probability is about 2^-40 or less.",
  ["include/gatebootstrapping.hpp", "include/params/128bit.hpp"], [("choice of noise, base and level constants", "include/params/*.hpp")])
p("C51", "The FFT multiplies torus polynomials within its error bound",
  "Negacyclic multiplication through the floating-point FFT differs from the exact product by at most the error budgeted in the parameter set, for every operand.",
  [I, C], "all operand polynomials", "Tests compare random operands only.",
  ["include/mulfft.hpp", "thirdparties/spqlios/fft_processor_spqlios.cpp"], [("FFT processors", "thirdparties/spqlios")])
p("C53", "Parameter sets reach their claimed security level",
  "Every parameter set offers at least the security level its name claims against the best known lattice attacks.",
  [C], "all parameter sets", "Not observable by execution.",
  ["include/params/128bit.hpp"], [("dimension/noise choices", "include/params/*.hpp")])
p("C54", "Secret-dependent computations take constant time",
  "Key generation, encryption and decryption do not branch on or index memory by secret data in a way that is visible in their timing.",
  [I], "all secrets", "Timing is not measured by the tests; the library does not promise it.",
  ["include/tlwe.hpp", "include/cloudkey.hpp"], [("straight-line arithmetic", "include/tlwe.hpp")])
p("C55", "Integer encodings round to the nearest message",
  "Integer decryption returns the encrypted message modulo the plaintext modulus whenever the noise is below half a message step.",
  [I, C], "all messages and noise values", "Tests sample messages at one modulus.",
  ["include/tlwe.hpp", "include/trlwe.hpp"], [("scaling by Delta and rounding", "include/tlwe.hpp")])
p("C56", "BFV style multiplication decrypts to the product of the messages",
  "Multiplying two ring ciphertexts and relinearising decrypts to the product modulo the plaintext modulus.",
  [I], "all messages", "Tests sample messages.",
  ["include/bfv++.hpp"], [("TRLWEMult and relinearisation", "include/bfv++.hpp")])
p("C57", "Packing places message i in slot i",
  "Packing a list of scalar ciphertexts into one ring ciphertext by repeated automorphisms decrypts to the messages in their slots, for every list length.",
  [I], "all list lengths and messages", "Tests pack one or two lengths.",
  ["include/keyswitch.hpp"], [("PackLWEs*, AnnihilateKeySwitching", "include/keyswitch.hpp")])
p("C58", "Archives are portable between machines",
  "An archive written on one machine is read back identically on another with different endianness, compiler or word size.",
  [C], "all pairs of platforms", "Tests run on one machine.",
  ["include/cloudkey.hpp"], [("cereal portable binary archive", "include/cloudkey.hpp")])
p("C59", "Different FFT back ends give interchangeable results",
  "A key or ciphertext produced with one FFT back end can be used with another built into the same program version with the same decrypted results.",
  [C], "all pairs of back ends", "One back end is built per configuration.",
  ["include/mulfft.hpp", "thirdparties/spqlios/fft_processor_spqlios.h"], [("back-end selection", "include/mulfft.hpp")])
p("C60", "Homomorphic digit decomposition returns the digits of the message",
  "Decomposing a high-precision ciphertext into digits yields ciphertexts of the message's base-2^b digits for every message.",
  [I], "all messages", "Tests sample messages.",
  ["include/homdecomp.hpp"], [("HomDecomp", "include/homdecomp.hpp")])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w", encoding="utf-8") as f:
    for d in P:
        assert len(d["title"]) <= 80, d["id"]
        f.write(json.dumps(d, ensure_ascii=False) + "\n")
