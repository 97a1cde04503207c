// C02: TRLWE encryption / phase / decryption and sample extraction.
#include "common.h"

// phase(Enc(p)) = p + noise, one fresh noise term per coefficient, fresh uniform mask
template <class P, int which>
static void enc()
{
    using T = typename P::T;
    vc_contract("trlweSymEncrypt"); vc_contract("trlweSymEncryptZero"); vc_contract("trlwePhase");
    vc::replaceNoise<P>(); vc::replacePolyMul<P>(); vc::resetGhost();
    vc::Box<Key<P>> key; if (VC_ENGINE) vc::fresh(*key, "key"); else vc::fresh_range(*key, "key", P::key_value_min, P::key_value_max);
    vc::Box<Polynomial<P>> p; vc::fresh(*p, "p");
    vc::Box<TRLWE<P>> c; double α = P::α; if (VC_ENGINE && (which & 1)) vc_fresh_real(&α, 1, "alpha");
    vc_frame_begin(); vc::frame(*c); vc::frameGhost<T>();
    if constexpr (which == 0) *c = trlweSymEncrypt<P>(*p, *key);
    else if constexpr (which == 1) *c = trlweSymEncrypt<P>(*p, α, *key);
    else if constexpr (which == 2) { *c = trlweSymEncryptZero<P>(*key); }
    else if constexpr (which == 3) { *c = trlweSymEncryptZero<P>(α, *key); }
    else if constexpr (which == 4) { *c = trlweSymIntEncrypt<P>(*p, *key); }
    else { *c = trlweSymIntEncrypt<P>(*p, α, *key); }
    vc_frame_end();
    if constexpr (which >= 4) for (uint32_t i = 0; i < P::n; i++) (*p)[i] = (T)(P::Δ * (*p)[i]);
    if constexpr (which == 2 || which == 3) *p = {};
    vc::Box<Polynomial<P>> ph, e; *ph = trlwePhase<P>(*c, *key);
    for (uint32_t i = 0; i < P::n; i++) (*e)[i] = (*ph)[i] - (*p)[i];
#if VC_ENGINE
    vc_assert(ghost::noises == P::n, "exactly one noise term per coefficient");
    vc_assert(ghost::sameStdev && ghost::stdev == α, "noise width is the requested one");
    vc_assert_perm(&*e, ghost::noise<T>.data(), P::n, sizeof(T), "phase(Enc(p)) = p + noise with one distinct noise term per coefficient");
    vc_assert(ghost::draws == P::k * P::n && ghost::fullRange, "one full-range draw per mask coefficient");
    T s = 0; for (uint32_t j = 0; j < P::k; j++) for (uint32_t i = 0; i < P::n; i++) s += (*c)[j][i];
    vc_assert(s == (T)ghost::drawSum, "every draw is used by exactly one mask coefficient");
#else
    for (uint32_t i = 0; i < P::n; i++) vc_assert(smallNoise<P>((*e)[i]), "phase(Enc(p)) = p + noise with one distinct noise term per coefficient");
    uint32_t z = 0; for (uint32_t i = 1; i < P::n; i++) z += (*c)[0][i] == (*c)[0][i - 1];
    vc_assert(z < P::n / 8, "every draw is used by exactly one mask coefficient");
#endif
    vc_cover("enc");
}
PROOF(C02_enc_lvl1) { enc<lvl1param, 0>(); }
PROOF(C02_enc_lvl2) { enc<lvl2param, 0>(); }
PROOF(C02_encalpha_lvl1) { enc<lvl1param, 1>(); }
PROOF(C02_encalpha_lvl2) { enc<lvl2param, 1>(); }
PROOF(C02_zero_lvl1) { enc<lvl1param, 2>(); }
PROOF(C02_zero_lvl2) { enc<lvl2param, 2>(); }
PROOF(C02_zeroalpha_lvl1) { enc<lvl1param, 3>(); }
PROOF(C02_zeroalpha_lvl2) { enc<lvl2param, 3>(); }
PROOF(C02_int_lvl1) { enc<lvl1param, 4>(); }
PROOF(C02_intalpha_lvl1) { enc<lvl1param, 5>(); }
PROOF(C02_int_lvl2) { enc<lvl2param, 4>(); }

// phase(c) = b - <a, s>, decrypt reads the sign of every coefficient
template <class P>
static void phase()
{
    using T = typename P::T;
    vc_contract("trlwePhase"); vc_contract("trlweSymDecrypt"); vc_contract("trlweSymIntDecrypt");
    vc::replacePolyMul<P>();
    vc::Box<Key<P>> key; if (VC_ENGINE) vc::fresh(*key, "key"); else vc::fresh_range(*key, "key", P::key_value_min, P::key_value_max);
    vc::Box<TRLWE<P>> c; vc::fresh(*c, "c");
    vc::Box<Polynomial<P>> ph, want, m, part; vc::Box<std::array<bool, P::n>> d, wd;
    vc_frame_begin(); vc::frame(*ph); vc::frame(*d); vc::frame(*m);
    *ph = trlwePhase<P>(*c, *key); *d = trlweSymDecrypt<P>(*c, *key); *m = trlweSymIntDecrypt<P>(*c, *key);
    vc_frame_end();
    *want = (*c)[P::k];
    for (uint32_t j = 0; j < P::k; j++) {
        for (uint32_t i = 0; i < P::n; i++) (*part)[i] = (*key)[j * P::n + i];
        vc::Box<Polynomial<P>> t; PolyMul<P>(*t, (*c)[j], *part);
        for (uint32_t i = 0; i < P::n; i++) (*want)[i] -= (*t)[i];
    }
    vc::eq(*ph, *want, "phase(c) = b - a*s");
    for (uint32_t i = 0; i < P::n; i++) (*wd)[i] = (std::make_signed_t<T>)(*want)[i] > 0;
    vc_assert_eq(&*d, &*wd, P::n, 1, "decrypted bit i = (phase_i > 0)");
    for (uint32_t i = 0; i < P::n; i++) (*part)[i] = (T)std::round((*want)[i] / P::Δ) % P::plain_modulus;
    vc::eq(*m, *part, "decrypted integer i = round(phase_i / Delta) mod p");
    vc_cover("phase");
}
PROOF(C02_phase_lvl1) { phase<lvl1param>(); }
PROOF(C02_phase_lvl2) { phase<lvl2param>(); }

// coefficient extraction and its inverse at every index
template <class P, bool inv>
static void extract()
{
    using T = typename P::T;
    vc_contract(inv ? "InvSampleExtractIndex" : "SampleExtractIndex");
    vc::Box<TRLWE<P>> c; vc::Box<TLWE<P>> t, want;
    if constexpr (!inv) {
        vc::fresh(*c, "c");
        for (uint32_t x = 0; x < P::n; x++) {
            vc_ctx(x); vc::fresh(*t, "t0");
            vc_frame_begin(); vc::frame(*t); SampleExtractIndex<P>(*t, *c, x); vc_frame_end();
            // coefficient x of a*s is sum_i s_i * (X^i a)_x
            for (uint32_t k = 0; k < P::k; k++) for (uint32_t i = 0; i < P::n; i++) (*want)[k * P::n + i] = coefXai<P>((*c)[k], i, x);
            (*want)[P::k * P::n] = (*c)[P::k][x];
            vc::eq(*t, *want, "extracted TLWE has the phase of coefficient x");
        }
    } else {
        vc::fresh(*t, "t");
        for (uint32_t x = 0; x < P::n; x++) {
            vc_ctx(x); vc::fresh(*c, "c0");
            vc_frame_begin(); vc::frame(*c); InvSampleExtractIndex<P>(*c, *t, x); vc_frame_end();
            for (uint32_t k = 0; k < P::k; k++) for (uint32_t i = 0; i < P::n; i++) (*want)[k * P::n + i] = coefXai<P>((*c)[k], i, x);
            (*want)[P::k * P::n] = (*c)[P::k][x];
            vc::eq(*want, *t, "coefficient x of the embedding is the given TLWE");
            vc::Box<Polynomial<P>> b; *b = {}; (*b)[x] = (*t)[P::k * P::n];
            vc::eq((*c)[P::k], *b, "all other body coefficients are zero");
        }
    }
    vc_cover("extract");
}
PROOF(C02_extract_lvl1) { extract<lvl1param, false>(); }
PROOF(C02_extract_lvl2) { extract<lvl2param, false>(); }
PROOF(C02_invextract_lvl1) { extract<lvl1param, true>(); }
PROOF(C02_invextract_lvl2) { extract<lvl2param, true>(); }
