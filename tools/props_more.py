prop("C06", "Gadget encryptions place the message at every gadget position",
     "For every key and plaintext polynomial, each row of a gadget ciphertext is a fresh ring encryption of zero to which exactly the plaintext times that row's gadget weight is added in that row's own component, for full and half gadgets and for each supported noise width. The transform-domain forms hold the transform of exactly these rows, in order.",
     "all keys, plaintext polynomials, masks, noise values and gadget rows", "a misplaced row or weight only changes low-order digits, which sampled decryptions attribute to noise",
     [I + "trgsw.hpp"], [("gadget encryption", "trgswSymEncrypt, halftrgswSymEncrypt"), ("transformed forms", "ApplyFFT2trgsw, ApplyNTT2trgsw, trgswfftSymEncrypt, trgswnttSymEncrypt")],
     note="ring encryption is used through its contract (C02), transforms are uninterpreted functions")
prop("C07", "Key switching is the exact digit combination of key rows",
     "For every input ciphertext and switching key, every key-switching procedure returns the rounded body (or nothing, for functional switching) minus the sum over all input coefficients and digit positions of the digit times the matching key row, where the digits recompose the rounded input coefficient; digits of magnitude zero touch nothing, and each entry of a batch is switched on its own.",
     "all ciphertext coefficient values, all key contents, all digit positions", "a wrong digit boundary or row index matters only for particular coefficient bits and adds noise-sized error elsewhere",
     [I + "keyswitch.hpp"], [("identity switching", "IdentityKeySwitch, CatIdentityKeySwitch, SubsetIdentityKeySwitch"), ("functional switching", "PrivKeySwitch, SubsetPrivKeySwitch"), ("scalar to ring", "TLWE2TRLWEIKS"), ("rounding offset", "iksoffsetgen")])
prop("C08", "Evaluation keys encrypt the right secrets at every position",
     "For every pair of secret keys, each entry of a bootstrapping or key-switching key is a separate fresh encryption, under the target key and with the target's noise width, of exactly the domain key's coefficient (or its indicator, or its product with the private function) scaled by that entry's weight; no entry is skipped, duplicated or encrypted under another key.",
     "all secret keys and all key entries", "one wrong entry among millions changes results only for ciphertexts that exercise it",
     [I + "cloudkey.hpp", "src/cloudkey.cpp"] if os.path.exists("/repo/src/cloudkey.cpp") else [I + "cloudkey.hpp"], [("bootstrapping keys", "bkgen, bkfftgen, bknttgen"), ("switching keys", "ikskgen, subikskgen, privkskgen, subprivkskgen")],
     note="encryptions are used through their contracts (C01, C02, C06)")
prop("C09", "Bootstrapping evaluates the lookup table at the ciphertext's phase",
     "For every ciphertext, key and test polynomial, blind rotation starts from the test polynomial rotated by the rounded body and applies, in order, one key-controlled rotation per mask coefficient by that coefficient rounded to 2n positions (to multiples of the output count for multi-output tables), skipping only zero rotations; bootstrapping extracts coefficient i of the result as output i. The rotation amounts are exact roundings for every coefficient value.",
     "all ciphertexts, keys, test polynomials and output counts", "the rounding boundaries and the wrap-around rotation 2n are hit with probability near 1/2n per coefficient and are masked by noise",
     [I + "gatebootstrapping.hpp"], [("blind rotation", "BlindRotate (FFT, NTT, ring test vector)"), ("bootstrapping", "GateBootstrappingTLWE2TLWEFFT, GateBootstrappingTLWE2TLWENTT, GateBootstrappingManyLUT, GateBootstrapping")],
     note="the controlled rotation is used through its contract (C05), key switching through its own (C07)")
prop("C10", "Every gate computes its truth table",
     "For every gate and every choice of input bits, the linear combination of the input ciphertexts that is bootstrapped is the one whose phase lies in the half of the torus that encodes the gate's output, with the full decoding margin, the result is the bootstrapped (and key-switched) value and nothing else is modified; inputs may be used for several operands. Multiplexers select the first data input exactly when the control is true.",
     "all gates, all input bits, all admissible input noise", "tests sample a few random inputs per gate; boundary noise and rarely instantiated parameter combinations are not reached",
     [I + "gate.hpp", "src/gate.cpp"], [("binary gates", "HomNAND, HomNOR, HomXNOR, HomAND, HomOR, HomXOR, HomANDNY, HomANDYN, HomORNY, HomORYN"), ("unary and constants", "HomNOT, HomCOPY, HomCONSTANTONE, HomCONSTANTZERO"), ("multiplexers", "HomMUX, HomNMUX, HomMUXwoIKSandSE, ExtractSwitchAndHomMUX")],
     note="bootstrapping and key switching are used through their contracts (C07, C09)")
prop("C11", "Circuit bootstrapping produces a gadget encryption of the input bit",
     "For every scalar ciphertext and evaluation key, row (component k, digit d) of the circuit-bootstrapped gadget ciphertext is the private key switch, with component k's key, of the scalar bootstrapping of the input with the test polynomial of digit d's gadget weight plus the constant that recentres it to {0, weight}; transformed and inverted variants hold the same rows transformed or negated around the gadget.",
     "all ciphertexts and keys, every gadget row", "one wrong row among many only adds error in later selections that random tests attribute to noise",
     [I + "circuitbootstrapping.hpp", "src/circuitbootstrapping.cpp"], [("circuit bootstrapping", "CircuitBootstrapping, CircuitBootstrappingPartial, CircuitBootstrappingFFT, CircuitBootstrappingFFTInv, CircuitBootstrappingFFTwithInv")],
     note="bootstrapping and private key switching are used through their contracts (C07, C09)")
prop("C12", "Encrypted memories read and write exactly the addressed word",
     "For every encrypted address and memory content, reading selects, through the tree of encrypted selections, exactly the entry whose index has the address bits, and writing replaces exactly that entry and leaves every other entry as it was.",
     "all addresses and memory contents, all address widths in use", "tests use a handful of addresses",
     [I + "cmuxmem.hpp"], [("tree selection", "RAM/ROM multiplexers"), ("controlled write", "CMUXFFT based write bars")],
     note="encrypted selection is used through its contract (C05)")
prop("C13", "Ring-to-ring automorphisms and packing preserve plaintexts",
     "For every ring ciphertext and automorphism key, the evaluated automorphism is the automorphism of the body minus the half external product of the automorphism of the mask with the key, the annihilating trace sums exactly the required automorphisms with halving at each level, and packing places each input scalar ciphertext at its own coefficient.",
     "all ciphertexts, keys and positions", "packing tests check a few random values; a wrong exponent leaves most coefficients intact",
     [I + "keyswitch.hpp"], [("automorphism", "EvalAuto"), ("trace", "AnnihilateKeySwitching"), ("packing", "PackLWEs, TLWE2TablePacking, TablePacking")],
     note="the half external product is used through its contract (C05)")
prop("C14", "The 64-bit prime field of the number-theoretic transform is computed exactly",
     "For every pair of field elements, addition, subtraction, multiplication and multiplication by every power of two in range return the residue modulo the transform's prime (2^64 - 2^32 + 1), in the canonical range the other operations require; powers and inverse powers of two are exact.",
     "all 2^128 operand pairs and all shift amounts", "carry corner cases occur with probability near 2^-32",
     [I + "INTorus.hpp"], [("field operations", "INTorus operator+, -, *, <<, Pow, InvPow2")])
