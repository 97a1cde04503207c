// C05: external product, CMUX and negacyclic products in the frequency domain.
// The transforms are uninterpreted here: every equation holds for any transform
// pair, hence in particular for the library's.
#include "common.h"

// res += a (*) b for two frequency-domain vectors: real parts first, imaginary parts second
template <class P> static void cmac(PolynomialInFD<P> &r, const PolynomialInFD<P> &a, const PolynomialInFD<P> &b)
{
    constexpr uint32_t H = P::n / 2;
    for (uint32_t i = 0; i < H; i++) {
        double ar = a[i], ai = a[i + H], br = b[i], bi = b[i + H];
        r[i] += ar * br - ai * bi; r[i + H] += ar * bi + ai * br;
    }
}
// rounding slack of a different summation order (native search only; exact in the verifier)
template <class P> static constexpr uint64_t slack() { return std::is_same_v<typename P::T, uint32_t> ? 64 : (uint64_t)1 << 45; }
static double fdScale() { return 1; }
template <class P, class A> static void freshFD(A &c, const char *nm)
{
    // natively: transforms of random torus polynomials, the values these arrays really take
    if (VC_ENGINE) { vc::fresh_real(c, nm); return; }
    auto *q = (PolynomialInFD<P> *)&c; vc::Box<Polynomial<P>> t;
    for (size_t i = 0; i < sizeof(A) / sizeof(PolynomialInFD<P>); i++) { vc::fresh(*t, nm); TwistIFFT<P>(q[i], *t); }
}
template <class P, uint32_t rows> static void specExt(TRLWE<P> &want, const Polynomial<P> *c, const std::array<TRLWEInFD<P>, rows> &g)
{
    vc::Box<DecomposedPolynomial<P>> d; vc::Box<TRLWEInFD<P>> acc; vc::Box<PolynomialInFD<P>> f;
    for (uint32_t m = 0; m <= P::k; m++) for (uint32_t j = 0; j < P::n; j++) (*acc)[m][j] = 0;
    for (uint32_t k = 0; k < rows / P::l; k++) {
        Decomposition<P>(*d, c[k], 0);
        for (uint32_t i = 0; i < P::l; i++) { TwistIFFT<P>(*f, (*d)[i]); for (uint32_t m = 0; m <= P::k; m++) cmac<P>((*acc)[m], *f, g[k * P::l + i][m]); }
    }
    for (uint32_t m = 0; m <= P::k; m++) TwistFFT<P>(want[m], (*acc)[m]);
}
template <class P, bool alias>
static void extprod()
{
    vc_contract("trgswfftExternalProduct"); vc_contract("MulInFD"); vc_contract("FMAInFD");
    vc::replaceFFT<P>(); vc::replaceDec<P>();
    vc::Box<TRLWE<P>> c, res, want; vc::fresh(*c, "c"); vc::Box<TRGSWFFT<P>> g; freshFD<P>(*g, "g");
    specExt<P, (P::k + 1) * P::l>(*want, &(*c)[0], *g);
    if constexpr (alias) { vc_frame_begin(); vc::frame(*c); trgswfftExternalProduct<P>(*c, *c, *g); vc_frame_end(); vc::eq_tol(*c, *want, slack<P>(), "in place: res = IFFT(sum_i FFT(digit_i) (*) row_i)"); }
    else { vc::fresh(*res, "res0"); vc_frame_begin(); vc::frame(*res); trgswfftExternalProduct<P>(*res, *c, *g); vc_frame_end(); vc::eq_tol(*res, *want, slack<P>(), "res = IFFT(sum_i FFT(digit_i) (*) row_i)"); }
    vc_cover("extprod");
}
PROOF(C05_extprod_lvl1) { extprod<lvl1param, false>(); }
PROOF(C05_extprod_lvl2) { extprod<lvl2param, false>(); }
PROOF(C05_extprod_inplace_lvl1) { extprod<lvl1param, true>(); }
PROOF(C05_extprod_inplace_lvl2) { extprod<lvl2param, true>(); }
template <class P>
static void halfext()
{
    vc_contract("halftrgswfftExternalProduct");
    vc::replaceFFT<P>(); vc::replaceDec<P>();
    vc::Box<Polynomial<P>> c; vc::fresh(*c, "c"); vc::Box<TRLWE<P>> res, want; vc::fresh(*res, "res0"); vc::Box<HalfTRGSWFFT<P>> g; freshFD<P>(*g, "g");
    specExt<P, P::l>(*want, &*c, *g);
    vc_frame_begin(); vc::frame(*res); halftrgswfftExternalProduct<P>(*res, *c, *g); vc_frame_end(); vc::eq_tol(*res, *want, slack<P>(), "res = IFFT(sum_i FFT(digit_i) (*) row_i)");
    vc_cover("halfext");
}
PROOF(C05_half_lvl1) { halfext<lvl1param>(); }
PROOF(C05_half_lvl2) { halfext<lvl2param>(); }

#if VC_ENGINE
// the external product by its contract: an uninterpreted function of its two operands
template <class P> static void extStub(TRLWE<P> &res, const TRLWE<P> &c, const TRGSWFFT<P> &g)
{
    TRLWE<P> t = c;
    for (uint32_t m = 0; m <= P::k; m++) {
        vc_uf_begin("ExtProd"); vc_uf_argn(m); for (uint32_t j = 0; j <= P::k; j++) vc_uf_argb(&t[j], P::n, sizeof(typename P::T));
        for (uint32_t i = 0; i < (P::k + 1) * P::l; i++) for (uint32_t j = 0; j <= P::k; j++) vc_uf_argd(&g[i][j][0], P::n);
        vc_uf_out(&res[m], P::n, sizeof(typename P::T), 0);
    }
}
template <class P> static void replaceExt() { using F = void(TRLWE<P> &, const TRLWE<P> &, const TRGSWFFT<P> &); vc_replace(vc::fa<F>(&trgswfftExternalProduct<P>), vc::fa<F>(&extStub<P>)); }
#else
template <class P> static void replaceExt() {}
#endif
// cs ? c1 : c0
template <class P, int alias>
static void cmux()
{
    vc_contract("CMUXFFT"); replaceExt<P>();
    vc::Box<TRLWE<P>> c1, c0, res, want, t; vc::fresh(*c1, "c1"); vc::fresh(*c0, "c0"); vc::Box<TRGSWFFT<P>> g; freshFD<P>(*g, "g");
    for (uint32_t m = 0; m <= P::k; m++) for (uint32_t i = 0; i < P::n; i++) (*t)[m][i] = (*c1)[m][i] - (*c0)[m][i];
    trgswfftExternalProduct<P>(*want, *t, *g);
    for (uint32_t m = 0; m <= P::k; m++) for (uint32_t i = 0; i < P::n; i++) (*want)[m][i] += (*c0)[m][i];
    if constexpr (alias == 0) { vc::fresh(*res, "res0"); vc_frame_begin(); vc::frame(*res); CMUXFFT<P>(*res, *g, *c1, *c0); vc_frame_end(); vc::eq(*res, *want, "CMUX = c0 + g [x] (c1 - c0)"); }
    else { vc_frame_begin(); vc::frame(*c1); CMUXFFT<P>(*c1, *g, *c1, *c0); vc_frame_end(); vc::eq(*c1, *want, "result stored over c1: CMUX = c0 + g [x] (c1 - c0)"); }
    vc_cover("cmux");
}
PROOF(C05_cmux_lvl1) { cmux<lvl1param, 0>(); }
PROOF(C05_cmux_lvl2) { cmux<lvl2param, 0>(); }
PROOF(C05_cmux_over1_lvl1) { cmux<lvl1param, 1>(); }
PROOF(C05_cmux_over1_lvl2) { cmux<lvl2param, 1>(); }

// rotation by key digits: acc += sum_v cs_v [x] (X^(a v) - 1) acc, v over the non-zero key values in order
template <class bkP, uint32_t lo, uint32_t hi, uint32_t step>
static void cmuxxai()
{
    using P = typename bkP::targetP; vc_contract("CMUXFFTwithPolynomialMulByXaiMinusOne"); replaceExt<P>();
    vc::Box<TRLWE<P>> acc, want, t; vc::Box<BootstrappingKeyElementFFT<bkP>> g; freshFD<P>(*g, "g");
    for (uint32_t a = lo; a < hi; a += step) {
        vc_ctx(a); vc::fresh(*acc, "acc"); *want = *acc; uint32_t e = 0;
        for (int v = bkP::domainP::key_value_min; v <= bkP::domainP::key_value_max; v++) if (v != 0) {
            uint32_t r = (uint32_t)(a * (int64_t)v) & (2 * P::n - 1);
            for (uint32_t m = 0; m <= P::k; m++) for (uint32_t i = 0; i < P::n; i++) (*t)[m][i] = coefXai<P>((*want)[m], r, i) - (*want)[m][i];
            trgswfftExternalProduct<P>(*t, *t, (*g)[e++]);
            for (uint32_t m = 0; m <= P::k; m++) for (uint32_t i = 0; i < P::n; i++) (*want)[m][i] += (*t)[m][i];
        }
        vc_frame_begin(); vc::frame(*acc); CMUXFFTwithPolynomialMulByXaiMinusOne<bkP>(*acc, *g, a); vc_frame_end();
        vc::eq(*acc, *want, "acc' = acc + BK_v [x] (X^(a v) - 1) acc for every non-zero key value v");
    }
    vc_cover("cmuxxai");
}
PROOF(C05_xai_lvl01) { cmuxxai<lvl01param, 0, 2 * lvl1param::n + 1, 1>(); }
PROOF(C05_xai_lvl02) { cmuxxai<lvl02param, 0, 2 * lvl2param::n + 1, 1>(); }
PROOF(C05_xai_lvlh1) { cmuxxai<lvlh1param, 0, 2 * lvl1param::n + 1, 1>(); }
PROOF(C05_xai_lvlh2) { cmuxxai<lvlh2param, 0, 2 * lvl2param::n + 1, 8>(); }

// negacyclic product of 32-bit tori: IFFT(FFT(a) (*) FFT(b))
template <class P>
static void polymul()
{
    vc_contract("PolyMul"); vc::replaceFFT<P>();
    vc::Box<Polynomial<P>> a, b, res, want; vc::fresh(*a, "a"); if (VC_ENGINE) vc::fresh(*b, "b"); else vc::fresh_range(*b, "b", -64, 64); vc::fresh(*res, "res0");
    vc::Box<PolynomialInFD<P>> f, g, acc; TwistIFFT<P>(*f, *a); TwistIFFT<P>(*g, *b); for (uint32_t i = 0; i < P::n; i++) (*acc)[i] = 0;
    cmac<P>(*acc, *f, *g); TwistFFT<P>(*want, *acc);
    vc_frame_begin(); vc::frame(*res); PolyMul<P>(*res, *a, *b); vc_frame_end();
    vc::eq_tol(*res, *want, slack<P>(), "a*b = IFFT(FFT(a) (*) FFT(b))"); vc_cover("polymul");
}
PROOF(C05_polymul_lvl1) { polymul<lvl1param>(); }
// complex products in place and out of place
template <uint32_t N, int which>
static void infd()
{
    vc_contract(which == 2 ? "FMAInFD" : "MulInFD"); constexpr uint32_t H = N / 2;
    vc::Box<std::array<double, N>> r, a, b, w; vc::fresh_real(*r, "r"); vc::fresh_real(*a, "a"); vc::fresh_real(*b, "b");
    for (uint32_t i = 0; i < H; i++) {
        double ar = which == 0 ? (*r)[i] : (*a)[i], ai = which == 0 ? (*r)[i + H] : (*a)[i + H], br = (*b)[i], bi = (*b)[i + H];
        (*w)[i] = (which == 2 ? (*r)[i] : 0) + (ar * br - ai * bi); (*w)[i + H] = (which == 2 ? (*r)[i + H] : 0) + (ar * bi + ai * br);
    }
    vc_frame_begin(); vc::frame(*r);
    if constexpr (which == 0) MulInFD<N>(*r, *b); else if constexpr (which == 1) MulInFD<N>(*r, *a, *b); else FMAInFD<N>(*r, *a, *b);
    vc_frame_end(); vc::eq(*r, *w, which == 2 ? "res = res + a (*) b" : "res = a (*) b"); vc_cover("infd");
}
PROOF(C05_mulfd2_lvl1) { infd<lvl1param::n, 0>(); }
PROOF(C05_mulfd2_lvl2) { infd<lvl2param::n, 0>(); }
PROOF(C05_mulfd_lvl1) { infd<lvl1param::n, 1>(); }
PROOF(C05_mulfd_lvl2) { infd<lvl2param::n, 1>(); }
PROOF(C05_fmafd_lvl1) { infd<lvl1param::n, 2>(); }
PROOF(C05_fmafd_lvl2) { infd<lvl2param::n, 2>(); }

// schoolbook product against the transform product (native, small second factor)
template <class P>
static void naive()
{
    vc::Box<Polynomial<P>> a, b, r, w; vc::fresh(*a, "a"); vc::fresh_range(*b, "b", -64, 64);
    PolyMul<P>(*r, *a, *b);
    for (uint32_t i = 0; i < P::n; i++) { typename P::T s = 0; for (uint32_t j = 0; j < P::n; j++) s += (*a)[j] * coefXai<P>(*b, j, i); (*w)[i] = s; }
    vc::eq_tol(*r, *w, 16, "transform product = negacyclic convolution"); PolyMulNaive<P>(*r, *a, *b); vc::eq(*r, *w, "naive product = negacyclic convolution");
}
BOUNDED(C05_naive_lvl1) { naive<lvl1param>(); }

// NTT external product over the prime field
template <class P>
static void extntt()
{
    vc_contract("trgswnttExternalProduct"); vc::replaceNTT<P>(); vc::replaceDec<P>(); vc::replaceField(); using I = cuHEpp::INTorus;
    vc::Box<TRLWE<P>> c, res, want; vc::fresh(*c, "c"); vc::fresh(*res, "res0"); vc::Box<TRGSWNTT<P>> g; vc::fresh_range(*g, "g", 0, (int64_t)(cuHEpp::P - 1));
    vc::Box<DecomposedPolynomial<P>> d; vc::Box<TRLWENTT<P>> acc; vc::Box<PolynomialNTT<P>> f;
    for (uint32_t m = 0; m <= P::k; m++) for (uint32_t j = 0; j < P::n; j++) (*acc)[m][j] = I(0, false);
    for (uint32_t k = 0; k <= P::k; k++) {
        Decomposition<P>(*d, (*c)[k], 0);
        for (uint32_t i = 0; i < P::l; i++) { TwistINTT<P>(*f, (*d)[i]); for (uint32_t m = 0; m <= P::k; m++) for (uint32_t j = 0; j < P::n; j++) (*acc)[m][j] = (*acc)[m][j] + (*f)[j] * (*g)[k * P::l + i][m][j]; }
    }
    for (uint32_t m = 0; m <= P::k; m++) TwistNTT<P>((*want)[m], (*acc)[m]);
    vc_frame_begin(); vc::frame(*res); trgswnttExternalProduct<P>(*res, *c, *g); vc_frame_end();
    vc::eq(*res, *want, "res = NTT^-1(sum_i NTT(digit_i) . row_i)"); vc_cover("extntt");
}
PROOF(C05_extntt_lvl1) { extntt<lvl1param>(); }
PROOF(C05_extntt_lvl2) { extntt<lvl2param>(); }
