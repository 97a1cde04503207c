// C06: gadget ciphertexts (TRGSW, half TRGSW) and their transformed forms.
#include "zero.h"
template <class P> static void freshPlain(Polynomial<P> &p) { vc::fresh(p, "p"); }
template <class P> static typename P::T hval(uint32_t i) { return (typename P::T)1 << (std::numeric_limits<typename P::T>::digits - (i + 1) * P::Bgbit); }
// natively the rows' phases are small only after the mask gadget is removed as well
template <class P, bool half, bool defα>
static void enc()
{
    using T = typename P::T; vc_contract(half ? "halftrgswSymEncrypt" : "trgswSymEncrypt"); constexpr uint32_t rows = half ? P::l : (P::k + 1) * P::l;
    vc::Box<Key<P>> key; freshKey<P>(*key, "key"); vc::Box<Polynomial<P>> p; freshPlain<P>(*p);
    double α = P::α; if (!defα && VC_ENGINE) vc_fresh_real(&α, 1, "alpha"); else if (!defα) α = P::α * 2;
    vc::replaceZero<P>(*key, α);
    vc::Box<std::array<TRLWE<P>, rows>> g; vc_frame_begin(); vc::frame(*g); vc::frameZero<P>();
    if constexpr (half) { if constexpr (defα) *g = halftrgswSymEncrypt<P>(*p, *key); else *g = halftrgswSymEncrypt<P>(*p, α, *key); }
    else { if constexpr (defα) *g = trgswSymEncrypt<P>(*p, *key); else *g = trgswSymEncrypt<P>(*p, α, *key); }
    vc_frame_end();
    for (uint32_t r = 0; r < rows; r++) { uint32_t m = half ? P::k : r / P::l; T h = hval<P>(r % P::l); for (uint32_t j = 0; j < P::n; j++) (*g)[r][m][j] -= (*p)[j] * h; }
    checkZeroRows<P>(&(*g)[0], rows, *key, α); vc_cover("enc");
}
PROOF(C06_enc_lvl1) { enc<lvl1param, false, true>(); }
PROOF(C06_enc_lvl2) { enc<lvl2param, false, true>(); }
PROOF(C06_encalpha_lvl1) { enc<lvl1param, false, false>(); }
PROOF(C06_encalpha_lvl2) { enc<lvl2param, false, false>(); }
PROOF(C06_half_lvl1) { enc<lvl1param, true, true>(); }
PROOF(C06_half_lvl2) { enc<lvl2param, true, true>(); }
PROOF(C06_halfalpha_lvl1) { enc<lvl1param, true, false>(); }

// transformed forms: every component of every row is transformed in place
template <class P, int which>
static void apply()
{
    constexpr uint32_t rows = which == 1 ? P::l : (P::k + 1) * P::l; vc_contract(which == 0 ? "ApplyFFT2trgsw" : which == 1 ? "ApplyFFT2halftrgsw" : which == 2 ? "ApplyNTT2trgsw" : "TRGSW2NTT");
    vc::replaceFFT<P>(); vc::replaceNTT<P>();
    vc::Box<std::array<TRLWE<P>, rows>> g; vc::fresh(*g, "g");
    if constexpr (which < 2) {
        vc::Box<std::array<TRLWEInFD<P>, rows>> r, w; vc_frame_begin(); vc::frame(*r);
        if constexpr (which == 0) *r = ApplyFFT2trgsw<P>(*g); else *r = ApplyFFT2halftrgsw<P>(*g);
        vc_frame_end();
        for (uint32_t i = 0; i < rows; i++) for (uint32_t m = 0; m <= P::k; m++) TwistIFFT<P>((*w)[i][m], (*g)[i][m]);
        vc::eq(*r, *w, "row i component m = FFT(row i component m)");
    } else {
        vc::Box<TRGSWNTT<P>> r, w; vc_frame_begin(); vc::frame(*r);
        if constexpr (which == 2) *r = ApplyNTT2trgsw<P>(*g); else *r = TRGSW2NTT<P>(*g);
        vc_frame_end(); vc::Box<PolynomialNTT<P>> t;
        for (uint32_t i = 0; i < rows; i++) for (uint32_t m = 0; m <= P::k; m++) {
            TwistINTT<P>(*t, (*g)[i][m]);
            for (uint32_t j = 0; j < P::n; j++) { uint32_t q = j; if (which == 3) q = cuHEpp::BitReverse<P::nbit>(j); (*w)[i][m][j] = (*t)[q]; }
        }
        vc::eq(*r, *w, which == 2 ? "row i component m = NTT(row i component m)" : "row i component m = NTT(row i component m), bit-reversed");
    }
    vc_cover("apply");
}
PROOF(C06_fft_lvl1) { apply<lvl1param, 0>(); }
PROOF(C06_fft_lvl2) { apply<lvl2param, 0>(); }
PROOF(C06_halffft_lvl1) { apply<lvl1param, 1>(); }
PROOF(C06_halffft_lvl2) { apply<lvl2param, 1>(); }
PROOF(C06_ntt_lvl1) { apply<lvl1param, 2>(); }
PROOF(C06_ntt_lvl2) { apply<lvl2param, 2>(); }
PROOF(C06_nttrev_lvl1) { apply<lvl1param, 3>(); }

// encryption straight into the transform domain = transform of an encryption
template <class P, int which, bool defα>
static void encfd()
{
    using T = typename P::T; constexpr uint32_t rows = which == 1 ? P::l : (P::k + 1) * P::l; vc_contract(which == 0 ? "trgswfftSymEncrypt" : which == 1 ? "halftrgswfftSymEncrypt" : "trgswnttSymEncrypt");
    vc::replaceFFT<P>(); vc::replaceNTT<P>();
    vc::Box<Key<P>> key; freshKey<P>(*key, "key"); vc::Box<Polynomial<P>> p; freshPlain<P>(*p);
    double α = P::α; if (!defα && VC_ENGINE) vc_fresh_real(&α, 1, "alpha"); else if (!defα) α = P::α * 2;
    vc::replaceZero<P>(*key, α);
    vc::Box<std::array<TRLWE<P>, rows>> g;
    if constexpr (which < 2) {
        vc::Box<std::array<TRLWEInFD<P>, rows>> r; vc_frame_begin(); vc::frame(*r); vc::frameZero<P>();
        if constexpr (which == 0 && defα) *r = trgswfftSymEncrypt<P>(*p, *key); else if constexpr (which == 0) *r = trgswfftSymEncrypt<P>(*p, α, *key);
        else if constexpr (defα) *r = halftrgswfftSymEncrypt<P>(*p, *key); else *r = halftrgswfftSymEncrypt<P>(*p, α, *key);
        vc_frame_end();
#if VC_ENGINE
        vc::Box<std::array<TRLWEInFD<P>, rows>> w;
        for (uint32_t i = 0; i < rows; i++) { (*g)[i] = ghost::zero<P>[i]; uint32_t m = which == 1 ? P::k : i / P::l; T h = hval<P>(i % P::l); for (uint32_t j = 0; j < P::n; j++) (*g)[i][m][j] += (*p)[j] * h; for (uint32_t q = 0; q <= P::k; q++) TwistIFFT<P>((*w)[i][q], (*g)[i][q]); }
        vc::eq(*r, *w, "FFT of zero encryption plus gadget terms, row by row");
#else
        for (uint32_t i = 0; i < rows; i++) for (uint32_t q = 0; q <= P::k; q++) TwistFFT<P>((*g)[i][q], (*r)[i][q]);
#endif
    } else {
        vc::Box<TRGSWNTT<P>> r; vc_frame_begin(); vc::frame(*r); vc::frameZero<P>();
        if constexpr (defα) *r = trgswnttSymEncrypt<P>(*p, *key); else *r = trgswnttSymEncrypt<P>(*p, α, *key);
        vc_frame_end();
#if VC_ENGINE
        vc::Box<TRGSWNTT<P>> w;
        for (uint32_t i = 0; i < rows; i++) { (*g)[i] = ghost::zero<P>[i]; uint32_t m = i / P::l; T h = hval<P>(i % P::l); for (uint32_t j = 0; j < P::n; j++) (*g)[i][m][j] += (*p)[j] * h; for (uint32_t q = 0; q <= P::k; q++) TwistINTT<P>((*w)[i][q], (*g)[i][q]); }
        vc::eq(*r, *w, "NTT of zero encryption plus gadget terms, row by row");
#else
        for (uint32_t i = 0; i < rows; i++) for (uint32_t q = 0; q <= P::k; q++) TwistNTT<P>((*g)[i][q], (*r)[i][q]);
#endif
    }
#if VC_ENGINE
    vc_assert(ghost::zeros == rows, "one fresh encryption of zero per row");
    vc_assert(ghost::zeroKey, "rows are encrypted under the given key"); vc_assert(ghost::zeroAlpha, "rows carry the requested noise width");
#else
    for (uint32_t r = 0; r < rows; r++) { uint32_t m = which == 1 ? P::k : r / P::l; T h = hval<P>(r % P::l); for (uint32_t j = 0; j < P::n; j++) (*g)[r][m][j] -= (*p)[j] * h; }
    checkZeroRows<P>(&(*g)[0], rows, *key, α, which < 2 ? 512 : 1);
#endif
    vc_cover("encfd");
}
PROOF(C06_encfft_lvl1) { encfd<lvl1param, 0, true>(); }
PROOF(C06_encfft_lvl2) { encfd<lvl2param, 0, true>(); }
PROOF(C06_encfftalpha_lvl1) { encfd<lvl1param, 0, false>(); }
PROOF(C06_enchalffft_lvl1) { encfd<lvl1param, 1, true>(); }
PROOF(C06_enchalffft_lvl2) { encfd<lvl2param, 1, true>(); }
PROOF(C06_enchalffftalpha_lvl1) { encfd<lvl1param, 1, false>(); }
PROOF(C06_encntt_lvl1) { encfd<lvl1param, 2, true>(); }
PROOF(C06_encntt_lvl2) { encfd<lvl2param, 2, true>(); }
PROOF(C06_encnttalpha_lvl1) { encfd<lvl1param, 2, false>(); }
