#pragma once
#include "common.h"
// ---------------------------------------------------------------- rotation amounts
// ciphertext coefficients are scaled to 2n positions (a multiple of 2^bw of them):
// the body is truncated, mask coefficients are rounded to nearest
constexpr uint32_t bwOf(uint32_t num_out) { uint32_t b = 0; while ((1u << b) < num_out) b++; return b; }
template <class D, class T, uint32_t bw> static uint32_t roundRot(typename D::T a)
{
    constexpr uint32_t W = std::numeric_limits<typename D::T>::digits, sh = W - 1 - T::nbit + bw; // 2n = 2^(nbit+1) positions
    constexpr uint64_t half = (uint64_t)1 << (sh - 1);
    return (uint32_t)((a + (typename D::T)half) >> sh) << bw; // 2n itself (16-bit coefficients promote) is the same rotation as 0
}
template <class D, class T, uint32_t bw> static uint32_t truncRot(typename D::T b)
{
    constexpr uint32_t W = std::numeric_limits<typename D::T>::digits, sh = W - 1 - T::nbit + bw;
    return 2 * T::n - (((uint32_t)(b >> sh)) << bw);
}
namespace vc {
#if VC_ENGINE
// X^a p as an uninterpreted function of p and a (contract: C03), 0 <= a <= 2n
template <class T> static void xaiStub(Polynomial<T> &res, const Polynomial<T> &p, const typename T::T a)
{
    vc_assert(a <= 2 * T::n, "rotation exponent within 0..2n");
    vc_uf_begin("Xai"); vc_uf_argn(a & (2 * T::n - 1)); vc_uf_argb(&p, T::n, sizeof(typename T::T)); vc_uf_out(&res, T::n, sizeof(typename T::T), 0);
}
template <class T> static void replaceXai() { using F = void(Polynomial<T> &, const Polynomial<T> &, const typename T::T); vc_replace(fa<F>(&PolynomialMulByXai<T>), fa<F>(&xaiStub<T>)); }
template <class T> static void xai(Polynomial<T> &res, const Polynomial<T> &p, typename T::T a) { xaiStub<T>(res, p, a); }
// one controlled rotation: a function of key entry, exponent mod 2n and accumulator that leaves the accumulator alone for exponent 0
template <class P> __attribute__((noinline)) static void rot(TRLWE<typename P::targetP> &acc, const void *e, uint32_t a)
{
    using T = typename P::targetP; vc_assert(a <= 2 * T::n, "rotation exponent within 0..2n"); a &= 2 * T::n - 1;
    TRLWE<T> t = acc;
    for (uint32_t m = 0; m <= T::k; m++) {
        vc_uf_begin("Rot"); vc_uf_argn(m); vc_uf_argn((uint64_t)e); vc_uf_argn(a); for (uint32_t j = 0; j <= T::k; j++) vc_uf_argb(&t[j], T::n, sizeof(typename T::T));
        vc_uf_id(a == 0, &t[m], T::n, sizeof(typename T::T)); vc_uf_out(&acc[m], T::n, sizeof(typename T::T), 0);
    }
}
template <class P> static void stepF(TRLWE<typename P::targetP> &acc, const BootstrappingKeyElementFFT<P> &e, const int a) { rot<P>(acc, &e, (uint32_t)a); }
template <class P> static void stepN(TRLWE<typename P::targetP> &acc, const TRGSWNTT<typename P::targetP> &e, const typename P::targetP::T a) { rot<P>(acc, &e, (uint32_t)a); }
template <class P> static void stepR(TRLWE<typename P::targetP> &acc, const TRGSWRAINTT<typename P::targetP> &e, const typename P::targetP::T a) { rot<P>(acc, &e, (uint32_t)a); }
template <class P> static void replaceStep()
{
    using T = typename P::targetP;
    { using F = void(TRLWE<T> &, const BootstrappingKeyElementFFT<P> &, const int); vc_replace(fa<F>(&CMUXFFTwithPolynomialMulByXaiMinusOne<P>), fa<F>(&stepF<P>)); }
    { using F = void(TRLWE<T> &, const TRGSWNTT<T> &, const typename T::T); vc_replace(fa<F>(&CMUXNTTwithPolynomialMulByXaiMinusOne<T>), fa<F>(&stepN<P>)); }
    if constexpr (std::is_same_v<T, lvl1param>) { using F = void(TRLWE<T> &, const TRGSWRAINTT<T> &, const typename T::T); vc_replace(fa<F>(&CMUXRAINTTwithPolynomialMulByXaiMinusOne<T>), fa<F>(&stepR<P>)); }
}
template <class P, class E> static void step(TRLWE<typename P::targetP> &acc, const E &e, uint32_t a) { rot<P>(acc, &e, a); }
template <class P, class BK> static void freshBK(BK &bk) {}
#else
template <class T> static void replaceXai() {}
template <class P> static void replaceStep() {}
template <class T> static void xai(Polynomial<T> &res, const Polynomial<T> &p, typename T::T a) { for (uint32_t i = 0; i < T::n; i++) res[i] = coefXai<T>(p, a, i); }
template <class P, class E> static void step(TRLWE<typename P::targetP> &acc, const E &e, uint32_t a)
{
    using T = typename P::targetP; a &= 2 * T::n - 1; if (a == 0) return;
    if constexpr (std::is_same_v<E, BootstrappingKeyElementFFT<P>>) CMUXFFTwithPolynomialMulByXaiMinusOne<P>(acc, e, a);
    else if constexpr (std::is_same_v<E, TRGSWNTT<T>>) CMUXNTTwithPolynomialMulByXaiMinusOne<T>(acc, e, a);
    else CMUXRAINTTwithPolynomialMulByXaiMinusOne<T>(acc, e, a);
}
// natively: gadget rows holding transforms of random small-noise-free polynomials
template <class P, class BK> static void freshBK(BK &bk)
{
    using T = typename P::targetP; using E = std::remove_reference_t<decltype(bk[0])>;
    if constexpr (std::is_same_v<E, BootstrappingKeyElementFFT<P>>) {
        auto *q = (PolynomialInFD<T> *)&bk; Box<Polynomial<T>> t; for (int v = 0; v < 8; v++) { fresh(*t, "bk"); TwistIFFT<T>(q[v], *t); }
        for (size_t i = 8; i < sizeof(BK) / sizeof(q[0]); i++) q[i] = q[(i * 5 + i / 7) & 7];
    } else if constexpr (std::is_same_v<E, TRGSWNTT<T>>) fresh_range(bk, "bk", 0, (int64_t)(cuHEpp::P - 1));
    else for (auto &g : bk) for (auto &r : g) for (auto &p : r) fresh_range(p, "bk", 0, (int64_t)raintt::P - 1);
}
#endif
// ---------------------------------------------------------------- evaluation keys
// every key an evaluation may ask for, owned here; the EvalKey only refers to them
struct Keys {
    EvalKey ek;
    template <class K> static void own(std::shared_ptr<K> &p) { static Box<K> b; p = std::shared_ptr<K>(std::shared_ptr<void>(), b.p); }
    template <class P> void bk() { using K = BootstrappingKeyFFT<P>; if constexpr (std::is_same_v<P, lvl01param>) own(ek.bkfftlvl01); else if constexpr (std::is_same_v<P, lvlh1param>) own(ek.bkfftlvlh1); else if constexpr (std::is_same_v<P, lvl02param>) own(ek.bkfftlvl02); else own(ek.bkfftlvlh2); freshBK<P>(key<K, P>()); }
    template <class P> void bkntt() { if constexpr (std::is_same_v<P, lvl01param>) own(ek.bknttlvl01); else own(ek.bknttlvl02); freshBK<P>(keyntt<P>()); }
    template <class P> void iks()
    {
        if constexpr (std::is_same_v<P, lvl10param>) own(ek.iksklvl10); else if constexpr (std::is_same_v<P, lvl1hparam>) own(ek.iksklvl1h); else if constexpr (std::is_same_v<P, lvl20param>) own(ek.iksklvl20); else if constexpr (std::is_same_v<P, lvl2hparam>) own(ek.iksklvl2h); else if constexpr (std::is_same_v<P, lvl21param>) own(ek.iksklvl21); else if constexpr (std::is_same_v<P, lvl22param>) own(ek.iksklvl22); else own(ek.iksklvl31);
        if (!VC_ENGINE) fresh(iksk<P>(), "iksk");
    }
    template <class K, class P> K &key() { if constexpr (std::is_same_v<P, lvl01param>) return *ek.bkfftlvl01; else if constexpr (std::is_same_v<P, lvlh1param>) return *ek.bkfftlvlh1; else if constexpr (std::is_same_v<P, lvl02param>) return *ek.bkfftlvl02; else return *ek.bkfftlvlh2; }
    template <class P> BootstrappingKeyFFT<P> &bkfft() { return key<BootstrappingKeyFFT<P>, P>(); }
    template <class P> BootstrappingKeyNTT<P> &keyntt() { if constexpr (std::is_same_v<P, lvl01param>) return *ek.bknttlvl01; else return *ek.bknttlvl02; }
    template <class P> KeySwitchingKey<P> &iksk()
    {
        if constexpr (std::is_same_v<P, lvl10param>) return *ek.iksklvl10; else if constexpr (std::is_same_v<P, lvl1hparam>) return *ek.iksklvl1h; else if constexpr (std::is_same_v<P, lvl20param>) return *ek.iksklvl20; else if constexpr (std::is_same_v<P, lvl2hparam>) return *ek.iksklvl2h; else if constexpr (std::is_same_v<P, lvl21param>) return *ek.iksklvl21; else if constexpr (std::is_same_v<P, lvl22param>) return *ek.iksklvl22; else return *ek.iksklvl31;
    }
};
// ---------------------------------------------------------------- bootstrapping and key switching by contract
// uninterpreted functions of the input ciphertext, the key used and the test polynomial
#if VC_ENGINE
template <class P, uint32_t num_out, class BK, class TV> static void blindStub(TRLWE<typename P::targetP> &res, const TLWE<typename P::domainP> &c, const BK &bk, const TV &tv)
{
    using D = typename P::domainP; using T = typename P::targetP; TLWE<D> cc = c; TV tt = tv;
    for (uint32_t m = 0; m <= T::k; m++) {
        vc_uf_begin("BlindRotate"); vc_uf_argn(num_out); vc_uf_argn(m); vc_uf_argn((uint64_t)&bk); vc_uf_argb(&cc, D::k * D::n + 1, sizeof(typename D::T));
        if constexpr (std::is_same_v<TV, Polynomial<T>>) vc_uf_argb(&tt, T::n, sizeof(typename T::T)); else for (uint32_t j = 0; j <= T::k; j++) vc_uf_argb(&tt[j], T::n, sizeof(typename T::T));
        vc_uf_out(&res[m], T::n, sizeof(typename T::T), 0);
    }
}
template <class P, uint32_t num_out, class BK = BootstrappingKeyFFT<P>, class TV = Polynomial<typename P::targetP>> static void replaceBlind() { using F = void(TRLWE<typename P::targetP> &, const TLWE<typename P::domainP> &, const BK &, const TV &); vc_replace(fa<F>(&BlindRotate<P, num_out>), fa<F>(&blindStub<P, num_out, BK, TV>)); }
template <class P, class BK> static void gbStub(TLWE<typename P::targetP> &res, const TLWE<typename P::domainP> &c, const BK &bk, const Polynomial<typename P::targetP> &tv)
{
    using D = typename P::domainP; using T = typename P::targetP;
    vc_uf_begin("Bootstrap"); vc_uf_argn((uint64_t)&bk); vc_uf_argb(&c, D::k * D::n + 1, sizeof(typename D::T)); vc_uf_argb(&tv, T::n, sizeof(typename T::T)); vc_uf_out(&res, T::k * T::n + 1, sizeof(typename T::T), 0);
}
template <class P> static void replaceGB() { using F = void(TLWE<typename P::targetP> &, const TLWE<typename P::domainP> &, const BootstrappingKeyFFT<P> &, const Polynomial<typename P::targetP> &); vc_replace(fa<F>(&GateBootstrappingTLWE2TLWEFFT<P>), fa<F>(&gbStub<P, BootstrappingKeyFFT<P>>)); }
template <class P> static void replaceGBNTT() { using F = void(TLWE<typename P::targetP> &, const TLWE<typename P::domainP> &, const BootstrappingKeyNTT<P> &, const Polynomial<typename P::targetP> &); vc_replace(fa<F>(&GateBootstrappingTLWE2TLWENTT<P>), fa<F>(&gbStub<P, BootstrappingKeyNTT<P>>)); }
template <class P> static void iksStub(TLWE<typename P::targetP> &res, const TLWE<typename P::domainP> &c, const KeySwitchingKey<P> &ksk)
{
    using D = typename P::domainP; using T = typename P::targetP;
    vc_uf_begin("KeySwitch"); vc_uf_argn((uint64_t)&ksk); vc_uf_argb(&c, D::k * D::n + 1, sizeof(typename D::T)); vc_uf_out(&res, T::k * T::n + 1, sizeof(typename T::T), 0);
}
template <class P> static void replaceIKS() { using F = void(TLWE<typename P::targetP> &, const TLWE<typename P::domainP> &, const KeySwitchingKey<P> &); vc_replace(fa<F>(&IdentityKeySwitch<P>), fa<F>(&iksStub<P>)); }
#else
template <class P, uint32_t num_out, class BK = BootstrappingKeyFFT<P>, class TV = Polynomial<typename P::targetP>> static void replaceBlind() {}
template <class P> static void replaceGB() {}
template <class P> static void replaceGBNTT() {}
template <class P> static void replaceIKS() {}
#endif
template <class P> static void constPoly(Polynomial<P> &p, typename P::T v) { for (uint32_t i = 0; i < P::n; i++) p[i] = v; }
}
