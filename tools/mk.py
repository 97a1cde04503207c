#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (a property is claimed when proofs/<id>.cpp exists)."""
import json, os, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
I = "include/"
P = []
def prop(id, title, statement, qtext, why, files, mech, over=("inputs",), note=""):
    P.append(dict(id=id, title=title, statement=statement, quantifier={"over": list(over), "text": qtext}, why_tests_cant=why,
                  anchors={"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": []}, note=note))
prop("C01", "Scalar ciphertexts decrypt to what was encrypted",
     "For every secret key, message and mask, a freshly encrypted scalar ciphertext has phase equal to the encoded message plus one fresh noise term of the requested width, its mask is freshly and fully random, and decryption is the sign (or the rounded multiple) of that phase. Encrypting or decrypting a vector treats every element independently and in order.",
     "all keys, messages, masks, noise values, levels and vector positions", "tests sample random keys/messages and can only observe the decrypted bit, which tolerates a wrong noise width, a reused mask or an off-by-one in rarely hit coefficients",
     [I + "tlwe.hpp", "src/tlwe.cpp"], [("encryption", "tlweSymEncrypt, tlweSymIntEncrypt"), ("phase", "tlweSymPhase"), ("decoding", "tlweSymDecrypt, tlweSymIntDecrypt, bootsSymEncrypt/Decrypt")],
     note="the noise and mask samplers are assumed to return arbitrary values (their distribution is not verified)")
prop("C02", "Ring ciphertexts decrypt correctly and extract coefficient-wise",
     "For every key, polynomial and mask, a ring ciphertext has phase equal to the encoded polynomial plus one fresh noise term per coefficient, and decryption decodes every coefficient. Extracting coefficient i of a ring ciphertext yields a scalar ciphertext whose phase under the same (flattened) key is exactly coefficient i of the ring phase, for every i.",
     "all keys, polynomials, masks, noise values and extraction indices", "extraction tests use few indices and random keys; a wrong sign at one index or position shows up only for particular coefficients",
     [I + "trlwe.hpp"], [("encryption", "trlweSymEncrypt*"), ("phase", "trlwePhase"), ("extraction", "SampleExtractIndex, InvSampleExtractIndex")],
     note="the negacyclic product is abstracted by its own contract (C05, C15)")
prop("C03", "Monomial products and ring automorphisms are exact",
     "Multiplying a ring element by a power of the variable (or by that power minus one) is exact for every exponent in 0..2n, and applying an automorphism substitutes the variable exactly for every odd exponent.",
     "all coefficients and all exponents 0..2n", "there are 2n+1 exponents and edge cases at 0, n and 2n that random testing almost never draws",
     [I + "mulfft.hpp", I + "trlwe.hpp"], [("rotation", "PolynomialMulByXai, PolynomialMulByXaiMinusOne"), ("automorphism", "Automorphism")])
prop("C04", "Gadget decomposition recomposes with bounded digits",
     "Decomposing any ring element yields digits of magnitude at most half the base whose weighted sum equals the element up to half a unit of the last digit, for every coefficient value. Transformed decompositions transform each digit and keep digit order.",
     "all coefficient values of every coefficient, all levels", "the failing values (carries, sign boundaries) are a handful out of 2^32 or 2^64",
     [I + "trgsw.hpp"], [("decomposition", "Decomposition, DecompositionNTT"), ("offset", "offsetgen, hgen")])
prop("C05", "External product and encrypted selection follow their defining equations",
     "The external product of a ring ciphertext with a gadget ciphertext equals the sum over all digits of digit times row, also when the result is stored over the input, and encrypted selection returns c0 plus the external product with c1 - c0. Rotation by a key digit adds exactly the selected rotation difference for every exponent.",
     "all ciphertexts, gadget rows, exponents and admissible aliasings", "tests decrypt the result of a few random selections, where noise hides a dropped or swapped low-weight digit",
     [I + "trgsw.hpp", I + "mulfft.hpp"], [("external product", "trgswfftExternalProduct, trgswnttExternalProduct, halftrgswfftExternalProduct"), ("selection", "CMUXFFT, CMUXFFTwithPolynomialMulByXaiMinusOne"), ("frequency-domain products", "MulInFD, FMAInFD, PolyMul")],
     note="the transforms are uninterpreted functions: equations hold for any transform pair; floating-point rounding is treated as exact")
exec(open(os.path.join(V, "tools", "props_more.py")).read()) if os.path.exists(os.path.join(V, "tools", "props_more.py")) else None
NA = []
def na(id, title, statement, qtext, why, files, mech, reason, over=("inputs",)):
    NA.append(reason and (dict(id=id, title=title, statement=statement, quantifier={"over": list(over), "text": qtext}, why_tests_cant=why, anchors={"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}), reason))
na("N01", "Floating-point transforms are accurate enough", "For all inputs in the admissible range, the rounding error of the floating-point transforms used for products stays below the decryption margin.",
   "all coefficient values", "worst-case rounding is not reached by random inputs", [I + "mulfft.hpp", "thirdparties/spqlios/fft_processor_spqlios.cpp"], [("transforms", "TwistFFT, TwistIFFT")],
   "hand-written AVX assembly and IEEE rounding-error bounds over 1024-point transforms are outside what a deductive verifier with real-arithmetic contracts can express")
na("N02", "Noise growth keeps decryption failures negligible", "With the shipped parameters, the probability that any supported circuit decrypts wrongly is below the documented bound.",
   "all circuits, over the randomness", "failure probabilities near 2^-40 cannot be sampled", [I + "params.hpp", I + "gatebootstrapping.hpp"], [("parameters", "params/128bit.hpp")],
   "a probabilistic statement over noise distributions; contracts here speak about one execution, not about probabilities", over=("inputs", "histories"))
na("N03", "Randomness is cryptographically secure and never reused", "Masks and noise are computationally indistinguishable from their ideal distributions, and no two draws of a process are correlated.",
   "all histories", "security is not observable by tests", [I + "random.hpp"] if os.path.exists("/repo/include/random.hpp") else [I + "utils.hpp"], [("generator", "thread_local generator, ModularGaussian")],
   "a cryptographic/statistical property of a third-party generator, not a postcondition of a function", over=("histories",))
na("N04", "Independent operations may run on concurrent threads", "Evaluations on distinct ciphertexts with shared read-only keys give the same results from any number of threads.",
   "all schedules", "races need particular interleavings", [I + "mulfft.hpp", "thirdparties/spqlios/fft_processor_spqlios.cpp"], [("thread-local transform buffers", "fftplvl1, fftplvl2")],
   "a concurrency property; the sequential contracts used here have no thread semantics", over=("schedules",))
checks = []; claimed = []; nal = []
for p in P:
    note = p.pop("note")
    if glob.glob(os.path.join(V, "proofs", p["id"] + "*.cpp")):
        claimed.append(p)
        checks.append(dict(property=p["id"], quick_cmd="python3 run.py %s --tier quick" % p["id"], thorough_cmd="python3 run.py %s --tier thorough" % p["id"], evidence_file="evidence/%s.json" % p["id"],
             technique="contract-based deductive verification of the compiled source (VC generation over LLVM IR, polynomial/bit-vector normal forms + SMT)", level="proof",
             level_note="Every obligation of every contract is regenerated from /repo and discharged on each run for all inputs, at the default parameter set. Trusted: clang front end, the tvc verifier, SMT back ends; bounded stand-ins, if any, are listed separately in the evidence and not counted." + (" Assumes: " + note + "." if note else "")))
for p, reason in NA: claimed.append(p); nal.append({"property": p["id"], "reason": reason})
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in claimed: f.write(json.dumps(p, ensure_ascii=False) + "\n")
json.dump({"version": 1, "setup_cmd": "python3 run.py --setup", "checks": checks, "not_applicable": nal,
           "notes": "no hooks are compiled into /repo; contracts live in proofs/ and are linked against the IR of the unmodified sources"}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
import jsonschema
jsonschema.validate(json.load(open(os.path.join(V, "MANIFEST.json"))), json.load(open("/root/.vp/MANIFEST.schema.json")))
s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
for p in claimed:
    jsonschema.validate(p, s)
    for f in p["anchors"]["files"]: assert os.path.exists("/repo/" + f), f
print(len(checks), "claimed,", len(nal), "not applicable")
