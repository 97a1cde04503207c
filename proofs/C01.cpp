// C01: TLWE encryption / phase / decryption.
#include "common.h"

// phase(Enc(p)) - p is exactly one fresh noise term of the parameter set's
// width; every mask coefficient is one fresh full-range draw.
template <class P, int which>
static void enc()
{
    using T = typename P::T;
    vc_contract("tlweSymEncrypt"); vc_contract("tlweSymPhase");
    vc::replaceNoise<P>(); vc::resetGhost();
    vc::Box<Key<P>> key; vc::fresh(*key, "key");
    T p; vc_fresh(&p, 1, sizeof p, "p");
    vc::Box<TLWE<P>> c; double α = P::α;
    vc_frame_begin(); vc_frame_allow(&*c, sizeof(TLWE<P>)); vc::frameGhost<T>();
    if constexpr (which == 0) *c = tlweSymEncrypt<P>(p, *key);
    else { if (VC_ENGINE) vc_fresh_real(&α, 1, "alpha"); *c = tlweSymEncrypt<P>(p, α, *key); }
    vc_frame_end();
    T ph = tlweSymPhase<P>(*c, *key);
#if VC_ENGINE
    vc_assert(ghost::noises == 1, "exactly one noise term per encryption");
    vc_assert(ph == (T)(p + (T)ghost::lastNoise), "phase(Enc(p)) = p + noise");
    vc_assert(ghost::stdev == α, "noise width is the requested one");
    vc_assert(ghost::draws == P::k * P::n && ghost::fullRange, "one full-range draw per mask coefficient");
    T s = 0; for (uint32_t i = 0; i < P::k * P::n; i++) s += (*c)[i];
    vc_assert(s == (T)ghost::drawSum, "every draw is used by exactly one mask coefficient");
#else
    vc_assert(smallNoise<P>((T)(ph - p)), "phase(Enc(p)) = p + noise");
    uint32_t z = 0; for (uint32_t i = 1; i < P::k * P::n; i++) z += (*c)[i] == (*c)[i - 1];
    vc_assert(z < P::n / 8, "every draw is used by exactly one mask coefficient");
#endif
    vc_cover("enc");
}
PROOF(C01_enc_lvl0) { enc<lvl0param, 0>(); }
PROOF(C01_enc_lvlhalf) { enc<lvlhalfparam, 0>(); }
PROOF(C01_enc_lvl1) { enc<lvl1param, 0>(); }
PROOF(C01_enc_lvl2) { enc<lvl2param, 0>(); }
PROOF(C01_enc_lvl3) { enc<lvl3param, 0>(); }
PROOF(C01_encalpha_lvl1) { enc<lvl1param, 1>(); }
PROOF(C01_encalpha_lvl2) { enc<lvl2param, 1>(); }

// the phase is b - <a,s> for every ciphertext and key
template <class P>
static void phase()
{
    using T = typename P::T;
    vc::Box<Key<P>> key; vc::fresh(*key, "key"); vc::Box<TLWE<P>> c; vc::fresh(*c, "c");
    vc_frame_begin(); T ph = tlweSymPhase<P>(*c, *key); bool d = tlweSymDecrypt<P>(*c, *key); vc_frame_end();
    T want = (*c)[P::k * P::n]; for (uint32_t i = P::k * P::n; i-- > 0;) want -= (*key)[i] * (*c)[i];
    vc_assert(ph == want, "phase(c) = b - <a,s>");
    vc_assert(d == ((std::make_signed_t<T>)ph > 0), "decrypt(c) = (phase > 0)");
    vc_cover("phase");
}
PROOF(C01_phase_lvl0) { phase<lvl0param>(); }
PROOF(C01_phase_lvlhalf) { phase<lvlhalfparam>(); }
PROOF(C01_phase_lvl1) { phase<lvl1param>(); }
PROOF(C01_phase_lvl2) { phase<lvl2param>(); }
PROOF(C01_phase_lvl3) { phase<lvl3param>(); }

// bit encryption round-trips whenever the noise stays below mu
template <class P>
static void roundtrip()
{
    using T = typename P::T;
    vc_contract("bootsSymEncrypt"); vc_contract("bootsSymDecrypt");
    vc::replaceNoise<P>(); vc::resetGhost();
    vc::Box<Key<P>> key; vc::fresh(*key, "key");
    constexpr int m = 3; std::vector<uint8_t> p(m);
    for (int i = 0; i < m; i++) vc_fresh(&p[i], 1, 1, "bit");
    std::vector<TLWE<P>> c = bootsSymEncrypt<P>(p, *key);
    std::vector<uint8_t> d = bootsSymDecrypt<P>(c, *key);
    vc_assert(c.size() == m && d.size() == m, "one ciphertext per bit");
#if VC_ENGINE
    vc_assert(ghost::noises == m, "independent noise per ciphertext");
    for (int i = 0; i < m; i++) { auto e = (std::make_signed_t<T>)ghost::noise<T>[i]; vc_assume(e > -(std::make_signed_t<T>)P::μ && e < (std::make_signed_t<T>)P::μ); }
#endif
    for (int i = 0; i < m; i++) {
        vc_assert((d[i] != 0) == (p[i] != 0), "decrypt(encrypt(bit)) = bit for |noise| < mu");
        vc_assert(tlweSymDecrypt<P>(c[i], *key) == (p[i] != 0), "ciphertext i carries bit i");
    }
    vc_cover("roundtrip");
}
PROOF(C01_bits_lvl0) { roundtrip<lvl0param>(); }
PROOF(C01_bits_lvl1) { roundtrip<lvl1param>(); }
PROOF(C01_bits_lvl2) { roundtrip<lvl2param>(); }

// integer messages
template <class P>
static void introundtrip()
{
    using T = typename P::T;
    vc_contract("tlweSymIntEncrypt"); vc_contract("tlweSymIntDecrypt");
    vc::replaceNoise<P>();
    vc::Box<Key<P>> key; vc::fresh(*key, "key");
    for (uint32_t m = 0; m < P::plain_modulus; m++) {
        vc_ctx(m); vc::resetGhost();
        TLWE<P> c = tlweSymIntEncrypt<P>(m, *key);
        T ph = tlweSymPhase<P>(c, *key); T step = (T)((T)1 << (std::numeric_limits<T>::digits - 3));
#if VC_ENGINE
        vc_assert(ph == (T)(m * step + (T)ghost::lastNoise), "phase(IntEnc(m)) = m q/8 + noise");
        auto e = (std::make_signed_t<T>)ghost::lastNoise; vc_assume(e >= -(std::make_signed_t<T>)(step / 2) && e < (std::make_signed_t<T>)(step / 2));
#else
        vc_assert(smallNoise<P>((T)(ph - m * step)), "phase(IntEnc(m)) = m q/8 + noise");
#endif
        T r = tlweSymIntDecrypt<P>(c, *key); T want = m >= 4 ? (T)(m - 8) : (T)m;
        vc_assert(r == want, "IntDec(IntEnc(m)) = m mod+- 8 for |noise| < q/16");
    }
    vc_cover("int");
}
PROOF(C01_int_lvl0) { introundtrip<lvl0param>(); }
PROOF(C01_int_lvlhalf) { introundtrip<lvlhalfparam>(); }
PROOF(C01_int_lvl1) { introundtrip<lvl1param>(); }
