// C13: homomorphic automorphisms, trace and packing.
// Structural contracts: the automorphism of a polynomial (C03) and the half external product (C05)
// are uninterpreted.  Phase contracts: ciphertexts are read through their phase (zero mask), the
// evaluated automorphism acts on it as the automorphism its key was made for (structural contract
// of EvalAuto, C03, C05, C08), and inserting a scalar ciphertext into a ring ciphertext puts its
// phase at coefficient 0 and something arbitrary everywhere else (C02).
#include "common.h"

#if VC_ENGINE
template <class P> static void autoStub(Polynomial<P> &res, const Polynomial<P> &p, const uint d) { vc_uf_begin("Automorphism"); vc_uf_argn(d); vc_uf_argb(&p, P::n, sizeof(typename P::T)); vc_uf_out(&res, P::n, sizeof(typename P::T), 0); }
template <class P> static void halfStub(TRLWE<P> &res, const Polynomial<P> &p, const HalfTRGSWFFT<P> &key) { for (uint32_t m = 0; m <= P::k; m++) { vc_uf_begin("HalfExt"); vc_uf_argn(m); vc_uf_argn((uint64_t)&key); vc_uf_argb(&p, P::n, sizeof(typename P::T)); vc_uf_out(&res[m], P::n, sizeof(typename P::T), 0); } }
template <class P> static void evalStub(TRLWE<P> &res, const TRLWE<P> &c, const int d, const EvalAutoKey<P> &key) { TRLWE<P> t = c; for (uint32_t m = 0; m <= P::k; m++) { vc_uf_begin("EvalAuto"); vc_uf_argn(m); vc_uf_argn(d); vc_uf_argn((uint64_t)&key); vc_uf_argb(&t, (P::k + 1) * P::n, sizeof(typename P::T)); vc_uf_out(&res[m], P::n, sizeof(typename P::T), 0); } }
template <class P> static const AnnihilateKey<P> *theKey;
template <class P> static void evalPhase(TRLWE<P> &res, const TRLWE<P> &c, const int d, const EvalAutoKey<P> &key)
{
    size_t i = &key - &(*theKey<P>)[0]; vc_assert(i < P::nbit && d == (1 << (P::nbit - i)) + 1, "the automorphism key belongs to the automorphism"); TRLWE<P> t = c;
    for (uint32_t m = 0; m < P::k; m++) res[m] = {}; Automorphism<P>(res[P::k], t[P::k], d);
}
template <class P> static void insertPhase(TRLWE<P> &res, const TLWE<P> &c, const int index) { vc_assert(index == 0, "scalar ciphertexts enter at coefficient 0"); for (uint32_t m = 0; m < P::k; m++) res[m] = {}; vc::fresh(res[P::k], "arbitrary"); res[P::k][0] = c[P::k * P::n]; }
template <class P> static void replaceAuto() { using F = void(Polynomial<P> &, const Polynomial<P> &, const uint); vc_replace(vc::fa<F>(&Automorphism<P>), vc::fa<F>(&autoStub<P>)); using G = void(TRLWE<P> &, const Polynomial<P> &, const HalfTRGSWFFT<P> &); vc_replace(vc::fa<G>(&halftrgswfftExternalProduct<P>), vc::fa<G>(&halfStub<P>)); }
template <class P> static void replaceEval(bool phase, const AnnihilateKey<P> &k) { theKey<P> = &k; using F = void(TRLWE<P> &, const TRLWE<P> &, const int, const EvalAutoKey<P> &); vc_replace(vc::fa<F>(&EvalAuto<P>), phase ? vc::fa<F>(&evalPhase<P>) : vc::fa<F>(&evalStub<P>)); }
template <class P> static void replaceInsert() { using F = void(TRLWE<P> &, const TLWE<P> &, const int); vc_replace(vc::fa<F>(&InvSampleExtractIndex<P>), vc::fa<F>(&insertPhase<P>)); }
#else
template <class P> static void replaceAuto() {}
template <class P> static void replaceEval(bool, const AnnihilateKey<P> &) {}
template <class P> static void replaceInsert() {}
#endif
template <class K> static void freshKey(K &k) { if (!VC_ENGINE) { double *p = (double *)&k; for (size_t i = 0; i < sizeof(K) / sizeof(double); i++) p[i] = (double)(int64_t)(i * 0x9e3779b97f4a7c15ull >> 40); } }
using A = std::array<int, 1>;

template <class P> static void evalauto()
{
    vc_contract("EvalAuto"); replaceAuto<P>(); vc::Box<EvalAutoKey<P>> key; freshKey(*key); vc::Box<TRLWE<P>> c, res, want, e; vc::fresh(*c, "c"); vc::fresh(*res, "res0"); vc::Box<Polynomial<P>> p;
    int d = VC_ENGINE ? (int)vc_fresh_u64_range("d", 1, 2 * P::n - 1) : (int)(vc_fresh_u64("d") % P::n * 2 + 1);
    for (uint32_t m = 0; m < P::k; m++) (*want)[m] = {}; Automorphism<P>((*want)[P::k], (*c)[P::k], d);
    for (uint32_t m = 0; m < P::k; m++) { Automorphism<P>(*p, (*c)[m], d); halftrgswfftExternalProduct<P>(*e, *p, (*key)[m]); for (uint32_t j = 0; j <= P::k; j++) for (uint32_t i = 0; i < P::n; i++) (*want)[j][i] -= (*e)[j][i]; }
    vc_frame_begin(); vc::frame(*res); EvalAuto<P>(*res, *c, d, *key); vc_frame_end(); vc::eq(*res, *want, "automorphism of the body minus the half external product of the automorphism of each mask polynomial with its key"); vc_cover("evalauto");
}
PROOF(C13_evalauto_lvl1) { evalauto<lvl1param>(); }
PROOF(C13_evalauto_lvl2) { evalauto<lvl2param>(); }

template <class P> static void half(TRLWE<P> &c) { for (uint32_t m = 0; m <= P::k; m++) for (uint32_t i = 0; i < P::n; i++) c[m][i] /= 2; }
template <class P> static void add(TRLWE<P> &c, const TRLWE<P> &d) { for (uint32_t m = 0; m <= P::k; m++) for (uint32_t i = 0; i < P::n; i++) c[m][i] += d[m][i]; }
template <class P> static void traceFrom(TRLWE<P> &c, uint32_t steps, const AnnihilateKey<P> &key) { vc::Box<TRLWE<P>> e; for (uint32_t i = 0; i < steps; i++) { half<P>(c); EvalAuto<P>(*e, c, (1 << (P::nbit - i)) + 1, key[i]); add<P>(c, *e); } }
template <class P> static void trace()
{
    vc_contract("AnnihilateKeySwitching"); vc::Box<AnnihilateKey<P>> key; freshKey(*key); replaceEval<P>(false, *key); vc::Box<TRLWE<P>> c, res, want; vc::fresh(*c, "c"); vc::fresh(*res, "res0");
    *want = *c; traceFrom<P>(*want, P::nbit, *key);
    vc_frame_begin(); vc::frame(*res); AnnihilateKeySwitching<P>(*res, *c, *key); vc_frame_end(); vc::eq(*res, *want, "at every level the halved ciphertext plus its automorphism by 2^(nbit-i)+1 under key i"); vc_cover("trace");
}
PROOF(C13_trace_lvl1) { trace<lvl1param>(); }
PROOF(C13_trace_lvl2) { trace<lvl2param>(); }
template <class P> static void tracePhase()
{
    vc_contract("AnnihilateKeySwitching (phase)"); vc::Box<AnnihilateKey<P>> key; freshKey(*key); replaceEval<P>(true, *key); vc::Box<TRLWE<P>> c, res; vc::fresh(*c, "c"); vc::fresh(*res, "res0"); for (uint32_t m = 0; m < P::k; m++) (*c)[m] = {};
    vc_frame_begin(); vc::frame(*res); AnnihilateKeySwitching<P>(*res, *c, *key); vc_frame_end(); vc::Box<Polynomial<P>> want; *want = {}; (*want)[0] = (*c)[P::k][0] / 2 * 2;
    vc::eq((*res)[P::k], *want, "the constant coefficient survives (up to its lowest bit), every other coefficient is annihilated"); vc_cover("trace phase");
}
PROOF(C13_tracephase_lvl1) { tracePhase<lvl1param>(); }
PROOF(C13_tracephase_lvl2) { tracePhase<lvl2param>(); }

// packing: structural
template <class P> static void specPack(TRLWE<P> &res, const std::vector<TLWE<P>> &t, const AnnihilateKey<P> &key, uint32_t l, uint32_t off, uint32_t step, bool lsb)
{
    if (lsb && off >= t.size()) { res = {}; return; }
    if (!l) { InvSampleExtractIndex<P>(res, t[off], 0); return; }
    vc::Box<TRLWE<P>> ev, od, x, y, e; specPack<P>(*ev, t, key, l - 1, off, 2 * step, lsb); specPack<P>(*od, t, key, l - 1, off + step, 2 * step, lsb);
    for (uint32_t m = 0; m <= P::k; m++) PolynomialMulByXai<P>((*x)[m], (*od)[m], P::n >> l);
    half<P>(*ev); half<P>(*x);
    for (uint32_t m = 0; m <= P::k; m++) for (uint32_t i = 0; i < P::n; i++) { (*y)[m][i] = (*ev)[m][i] - (*x)[m][i]; res[m][i] = (*ev)[m][i] + (*x)[m][i]; }
    EvalAuto<P>(*e, *y, (1 << l) + 1, key[P::nbit - l]); add<P>(res, *e);
}
template <class P> static void freshT(std::vector<TLWE<P>> &t) { for (auto &c : t) vc::fresh(c, "tlwe"); }
template <class P, int kind> static void pack(uint32_t count)
{
    vc_contract(kind == 0 ? "PackLWEs, TLWE2TRLWEChengsPacking" : "PackLWEsLSB"); vc::Box<AnnihilateKey<P>> key; freshKey(*key); replaceEval<P>(false, *key); std::vector<TLWE<P>> t(count); freshT<P>(t); uint32_t l = 0; while ((1u << l) < count) l++;
    vc::Box<TRLWE<P>> res, want; vc::fresh(*res, "res0"); std::vector<TLWE<P>> s = t; if (kind == 0) { s.resize(1 << l); specPack<P>(*want, s, *key, l, 0, 1, false); traceFrom<P>(*want, P::nbit - l, *key); } else { specPack<P>(*want, s, *key, l, 0, 1, true); }
    if constexpr (kind == 0) { TLWE2TRLWEChengsPacking<P>(*res, t, *key); } else { vc_frame_begin(); vc::frame(*res); PackLWEsLSB<P>(*res, t, *key, l, 0, 1); vc_frame_end(); }
    vc::eq(*res, *want, "even and odd halves merged by halving, rotation and automorphism, then traced"); vc_cover("pack");
}
PROOF(C13_pack_1) { pack<lvl1param, 0>(1); }
PROOF(C13_pack_4) { pack<lvl1param, 0>(4); }
PROOF(C13_pack_5) { pack<lvl1param, 0>(5); }
PROOF(C13_packlsb_4) { pack<lvl1param, 1>(4); }
PROOF(C13_packlsb_5) { pack<lvl1param, 1>(5); }
// packing: every phase arrives at its own coefficient, nothing else remains
template <class P, int kind> static void packPhase(uint32_t count)
{
    vc_contract(kind == 0 ? "TLWE2TRLWEChengsPacking (phase)" : "TLWE2TRLWEPacking (phase)"); vc::Box<AnnihilateKey<P>> key; freshKey(*key); replaceEval<P>(true, *key); replaceInsert<P>(); std::vector<TLWE<P>> t(count); uint32_t l = 0; while ((1u << l) < count) l++;
    for (auto &c : t) { c = {}; vc_fresh(&c[P::k * P::n], 1, sizeof(typename P::T), "phase"); } std::vector<TLWE<P>> s = t; vc::Box<TRLWE<P>> res; vc::fresh(*res, "res0"); vc::Box<Polynomial<P>> want; *want = {};
    uint32_t L = kind ? P::nbit : l, st = P::n >> L; for (uint32_t i = 0; i < count; i++) (*want)[i * st] = s[i][P::k * P::n] / 2 * 2;
    if constexpr (kind == 0) TLWE2TRLWEChengsPacking<P>(*res, t, *key); else TLWE2TRLWEPacking<P>(*res, t, *key);
    vc::eq((*res)[P::k], *want, "coefficient i (in steps of the packing) carries the phase of scalar ciphertext i, the others are zero"); vc_cover("pack phase");
}
PROOF(C13_packphase_1) { packPhase<lvl1param, 0>(1); }
PROOF(C13_packphase_2) { packPhase<lvl1param, 0>(2); }
PROOF(C13_packphase_5) { packPhase<lvl1param, 0>(5); }
PROOF(C13_packphase_8) { packPhase<lvl1param, 0>(8); }
PROOF(C13_packphase_32) { packPhase<lvl1param, 0>(32); }
PROOF(C13_lsbphase_1) { packPhase<lvl1param, 1>(1); }
PROOF(C13_lsbphase_3) { packPhase<lvl1param, 1>(3); }
PROOF(C13_lsbphase_16) { packPhase<lvl1param, 1>(16); }
PROOF(C13_lsbphase_64) { packPhase<lvl1param, 1>(64); }
PROOF(C13_lsbphase_1024__t) { packPhase<lvl1param, 1>(1024); }
