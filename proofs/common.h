#pragma once
#include "pre.h"
#include "vc.h"
#include <tfhe++.hpp>
namespace vc {
template <class T, size_t N> struct scal<TFHEpp::aligned_array<T, N>> { using t = typename scal<T>::t; };
// a padded array counts as dense only as a leaf: its N elements are contiguous
template <class T, size_t N> struct dense<TFHEpp::aligned_array<T, N>> { static constexpr size_t n = dense<T>::n == 0 ? 0 : N * dense<T>::n; };
template <> struct scal<cuHEpp::INTorus> { using t = uint64_t; };
}
using namespace TFHEpp;

// ---------------------------------------------------------------- randomness
// Contracts assumed on the random sources (trusted: their statistical quality).
// Each call returns an arbitrary value of the requested range; the ghost state
// remembers what was drawn.
namespace ghost {
inline uint64_t draws, noises; // calls so far
inline uint64_t drawSum;       // sum of all mask draws (mod 2^64)
inline double stdev;           // last noise width requested
inline uint64_t lastNoise;
template <class T> inline std::array<T, 1 << 17> noise; // noise terms in call order
inline bool fullRange, sameStdev;
}
#if VC_ENGINE
namespace vc {
template <class T, class G> static T uniformStub(std::uniform_int_distribution<T> *d, G &)
{
    ghost::draws++;
    T v; 
    if (d->a() == 0 && d->b() == std::numeric_limits<T>::max()) vc_fresh(&v, 1, sizeof(T), "draw");
    else { ghost::fullRange = false; vc_fresh(&v, 1, sizeof(T), "draw"); vc_assume(v >= d->a() && v <= d->b()); }
    ghost::drawSum += v;
    return v;
}
template <class T> inline void replaceUniform()
{
    using G = decltype(TFHEpp::generator);
    T (std::uniform_int_distribution<T>::*pm)(G &) = &std::uniform_int_distribution<T>::template operator()<G>;
    void *q[2]; __builtin_memcpy(q, &pm, sizeof q);
    T (*s)(std::uniform_int_distribution<T> *, G &) = &uniformStub<T, G>;
    vc_replace(q[0], (const void *)s);
}
template <class P> static typename P::T gaussStub(typename P::T center, double stdev)
{
    typename P::T e; vc_fresh(&e, 1, sizeof e, "noise");
    if (ghost::noises && !(ghost::stdev == stdev)) ghost::sameStdev = false;
    ghost::noise<typename P::T>[ghost::noises++] = e; ghost::stdev = stdev; ghost::lastNoise = e;
    return center + e;
}
template <class P> inline void replaceNoise() { typename P::T (*f)(typename P::T, double) = &ModularGaussian<P>; typename P::T (*s)(typename P::T, double) = &gaussStub<P>; vc_replace((const void *)f, (const void *)s); replaceUniform<typename P::T>(); }
// the negacyclic product as an uninterpreted function of its two factors (its own
// contract: C05 for 32-bit tori, C15 for 64-bit tori)
template <class P> static void polyMulStub(Polynomial<P> &res, const Polynomial<P> &a, const Polynomial<P> &b)
{
    vc_uf_begin("PolyMul"); vc_uf_argb(&a, P::n, sizeof(typename P::T)); vc_uf_argb(&b, P::n, sizeof(typename P::T)); vc_uf_out(&res, P::n, sizeof(typename P::T), 0);
}
template <class P> inline void replacePolyMul() { void (*f)(Polynomial<P> &, const Polynomial<P> &, const Polynomial<P> &) = &PolyMul<P>, (*s)(Polynomial<P> &, const Polynomial<P> &, const Polynomial<P> &) = &polyMulStub<P>; vc_replace((const void *)f, (const void *)s); }
// transforms as uninterpreted functions: every fact proved with these holds for
// any pair of transforms (their own contracts: C05 dispatch, C15, C16)
template <class P> static std::string ufn(const char *s) { return std::string(s) + std::to_string(P::n) + "_" + std::to_string(std::numeric_limits<typename P::T>::digits); }
template <class P> static void fftStub(PolynomialInFD<P> &res, const Polynomial<P> &a) { vc_uf_begin("FFT"); vc_uf_argb(&a, P::n, sizeof(typename P::T)); vc_uf_outd(&res[0], P::n, 0); }
template <class P> static void ifftStub(Polynomial<P> &res, const PolynomialInFD<P> &a) { vc_uf_begin("IFFT"); vc_uf_argd(&a[0], P::n); vc_uf_out(&res, P::n, sizeof(typename P::T), 0); }
template <class F> static const void *fa(F *f) { return (const void *)f; }
template <class P> inline void replaceFFT()
{
    vc_replace(fa<void(PolynomialInFD<P> &, const Polynomial<P> &)>(&TwistIFFT<P>), fa<void(PolynomialInFD<P> &, const Polynomial<P> &)>(&fftStub<P>));
    vc_replace(fa<void(Polynomial<P> &, const PolynomialInFD<P> &)>(&TwistFFT<P>), fa<void(Polynomial<P> &, const PolynomialInFD<P> &)>(&ifftStub<P>));
}
template <class P> static void inttStub(PolynomialNTT<P> &res, const Polynomial<P> &a) { vc_uf_begin("INTT"); vc_uf_argb(&a, P::n, sizeof(typename P::T)); vc_uf_out(&res, P::n, 8, 0); }
template <class P> static void nttStub(Polynomial<P> &res, PolynomialNTT<P> &a) { vc_uf_begin("NTT"); vc_uf_argb(&a, P::n, 8); vc_uf_out(&res, P::n, sizeof(typename P::T), 0); vc_fresh(&a, P::n, 8, "clobbered"); }
template <class P> inline void replaceNTT()
{
    vc_replace(fa<void(PolynomialNTT<P> &, const Polynomial<P> &)>(&TwistINTT<P>), fa<void(PolynomialNTT<P> &, const Polynomial<P> &)>(&inttStub<P>));
    vc_replace(fa<void(Polynomial<P> &, PolynomialNTT<P> &)>(&TwistNTT<P>), fa<void(Polynomial<P> &, PolynomialNTT<P> &)>(&nttStub<P>));
}
// gadget decomposition (its contract: C04)
template <class P> static void decStub(DecomposedPolynomial<P> &d, const Polynomial<P> &p, typename P::T)
{
    for (uint32_t i = 0; i < P::l; i++) { vc_uf_begin("Dec"); vc_uf_argn(i); vc_uf_argb(&p, P::n, sizeof(typename P::T)); vc_uf_out(&d[i], P::n, sizeof(typename P::T), 0); }
}
template <class P> inline void replaceDec() { using F = void(DecomposedPolynomial<P> &, const Polynomial<P> &, typename P::T); vc_replace(fa<F>(&Decomposition<P>), fa<F>(&decStub<P>)); }
// field operations of cuHEpp::INTorus (their contracts: C14)
constexpr uint64_t FP = 201;
using I = cuHEpp::INTorus;
static I iAdd(const I *a, const I &b) { return I(vc_ring_add(FP, a->value, b.value), false); }
static I iSub(const I *a, const I &b) { return I(vc_ring_sub(FP, a->value, b.value), false); }
static I iMul(const I *a, const I &b) { return I(vc_ring_mul(FP, a->value, b.value), false); }
static I &iAddA(I *a, const I &b) { a->value = vc_ring_add(FP, a->value, b.value); return *a; }
static I iSubA(I *a, const I &b) { a->value = vc_ring_sub(FP, a->value, b.value); return *a; }
static I iMulA(I *a, const I &b) { a->value = vc_ring_mul(FP, a->value, b.value); return *a; }
static I iShl(const I *a, uint32_t l) { uint64_t p = 1; for (uint32_t i = 0; i < l; i++) p = vc_ring_add(FP, p, p); return I(vc_ring_mul(FP, a->value, p), false); }
template <class M> static const void *pm(M m) { void *q[2]; static_assert(sizeof(m) == sizeof(q)); __builtin_memcpy(q, &m, sizeof q); return q[0]; }
inline void replaceField()
{
    vc_replace(pm(static_cast<I (I::*)(const I &) const>(&I::operator+)), (const void *)&iAdd);
    vc_replace(pm(static_cast<I (I::*)(const I &) const>(&I::operator-)), (const void *)&iSub);
    vc_replace(pm(static_cast<I (I::*)(const I &) const>(&I::operator*)), (const void *)&iMul);
    vc_replace(pm(static_cast<I &(I::*)(const I &)>(&I::operator+=)), (const void *)&iAddA);
    vc_replace(pm(static_cast<I (I::*)(const I &)>(&I::operator-=)), (const void *)&iSubA);
    vc_replace(pm(static_cast<I (I::*)(const I &)>(&I::operator*=)), (const void *)&iMulA);
    vc_replace(pm(static_cast<I (I::*)(uint32_t) const>(&I::operator<<)), (const void *)&iShl);
}
template <class T> inline void frameGhost() { vc_frame_allow(&ghost::draws, 8); vc_frame_allow(&ghost::noises, 8); vc_frame_allow(&ghost::drawSum, 8); vc_frame_allow(&ghost::stdev, 8); vc_frame_allow(&ghost::lastNoise, 8); vc_frame_allow(&ghost::fullRange, 1); vc_frame_allow(&ghost::sameStdev, 1); vc_frame_allow(&ghost::noise<T>, sizeof(ghost::noise<T>)); }
inline void resetGhost() { ghost::draws = ghost::noises = ghost::drawSum = 0; ghost::fullRange = ghost::sameStdev = true; ghost::stdev = 0; ghost::lastNoise = 0; }
}
#else
namespace vc { template <class P> inline void replaceNoise() {} template <class T> inline void replaceUniform() {} // the negacyclic product as an uninterpreted function of its two factors (its own
// contract: C05 for 32-bit tori, C15 for 64-bit tori)
template <class P> static void polyMulStub(Polynomial<P> &res, const Polynomial<P> &a, const Polynomial<P> &b)
{
    vc_uf_begin("PolyMul"); vc_uf_argb(&a, P::n, sizeof(typename P::T)); vc_uf_argb(&b, P::n, sizeof(typename P::T)); vc_uf_out(&res, P::n, sizeof(typename P::T), 0);
}
template <class P> inline void replacePolyMul() { void (*f)(Polynomial<P> &, const Polynomial<P> &, const Polynomial<P> &) = &PolyMul<P>, (*s)(Polynomial<P> &, const Polynomial<P> &, const Polynomial<P> &) = &polyMulStub<P>; vc_replace((const void *)f, (const void *)s); }
// transforms as uninterpreted functions: every fact proved with these holds for
// any pair of transforms (their own contracts: C05 dispatch, C15, C16)
template <class P> static std::string ufn(const char *s) { return std::string(s) + std::to_string(P::n) + "_" + std::to_string(std::numeric_limits<typename P::T>::digits); }
template <class P> static void fftStub(PolynomialInFD<P> &res, const Polynomial<P> &a) { vc_uf_begin("FFT"); vc_uf_argb(&a, P::n, sizeof(typename P::T)); vc_uf_outd(&res[0], P::n, 0); }
template <class P> static void ifftStub(Polynomial<P> &res, const PolynomialInFD<P> &a) { vc_uf_begin("IFFT"); vc_uf_argd(&a[0], P::n); vc_uf_out(&res, P::n, sizeof(typename P::T), 0); }
template <class F> static const void *fa(F *f) { return (const void *)f; }
template <class P> inline void replaceFFT()
{
    vc_replace(fa<void(PolynomialInFD<P> &, const Polynomial<P> &)>(&TwistIFFT<P>), fa<void(PolynomialInFD<P> &, const Polynomial<P> &)>(&fftStub<P>));
    vc_replace(fa<void(Polynomial<P> &, const PolynomialInFD<P> &)>(&TwistFFT<P>), fa<void(Polynomial<P> &, const PolynomialInFD<P> &)>(&ifftStub<P>));
}
template <class P> static void inttStub(PolynomialNTT<P> &res, const Polynomial<P> &a) { vc_uf_begin("INTT"); vc_uf_argb(&a, P::n, sizeof(typename P::T)); vc_uf_out(&res, P::n, 8, 0); }
template <class P> static void nttStub(Polynomial<P> &res, PolynomialNTT<P> &a) { vc_uf_begin("NTT"); vc_uf_argb(&a, P::n, 8); vc_uf_out(&res, P::n, sizeof(typename P::T), 0); vc_fresh(&a, P::n, 8, "clobbered"); }
template <class P> inline void replaceNTT()
{
    vc_replace(fa<void(PolynomialNTT<P> &, const Polynomial<P> &)>(&TwistINTT<P>), fa<void(PolynomialNTT<P> &, const Polynomial<P> &)>(&inttStub<P>));
    vc_replace(fa<void(Polynomial<P> &, PolynomialNTT<P> &)>(&TwistNTT<P>), fa<void(Polynomial<P> &, PolynomialNTT<P> &)>(&nttStub<P>));
}
// gadget decomposition (its contract: C04)
template <class P> static void decStub(DecomposedPolynomial<P> &d, const Polynomial<P> &p, typename P::T)
{
    for (uint32_t i = 0; i < P::l; i++) { vc_uf_begin("Dec"); vc_uf_argn(i); vc_uf_argb(&p, P::n, sizeof(typename P::T)); vc_uf_out(&d[i], P::n, sizeof(typename P::T), 0); }
}
template <class P> inline void replaceDec() { using F = void(DecomposedPolynomial<P> &, const Polynomial<P> &, typename P::T); vc_replace(fa<F>(&Decomposition<P>), fa<F>(&decStub<P>)); }
// field operations of cuHEpp::INTorus (their contracts: C14)
constexpr uint64_t FP = 201;
using I = cuHEpp::INTorus;
static I iAdd(const I *a, const I &b) { return I(vc_ring_add(FP, a->value, b.value), false); }
static I iSub(const I *a, const I &b) { return I(vc_ring_sub(FP, a->value, b.value), false); }
static I iMul(const I *a, const I &b) { return I(vc_ring_mul(FP, a->value, b.value), false); }
static I &iAddA(I *a, const I &b) { a->value = vc_ring_add(FP, a->value, b.value); return *a; }
static I iSubA(I *a, const I &b) { a->value = vc_ring_sub(FP, a->value, b.value); return *a; }
static I iMulA(I *a, const I &b) { a->value = vc_ring_mul(FP, a->value, b.value); return *a; }
static I iShl(const I *a, uint32_t l) { uint64_t p = 1; for (uint32_t i = 0; i < l; i++) p = vc_ring_add(FP, p, p); return I(vc_ring_mul(FP, a->value, p), false); }
template <class M> static const void *pm(M m) { void *q[2]; static_assert(sizeof(m) == sizeof(q)); __builtin_memcpy(q, &m, sizeof q); return q[0]; }
inline void replaceField()
{
    vc_replace(pm(static_cast<I (I::*)(const I &) const>(&I::operator+)), (const void *)&iAdd);
    vc_replace(pm(static_cast<I (I::*)(const I &) const>(&I::operator-)), (const void *)&iSub);
    vc_replace(pm(static_cast<I (I::*)(const I &) const>(&I::operator*)), (const void *)&iMul);
    vc_replace(pm(static_cast<I &(I::*)(const I &)>(&I::operator+=)), (const void *)&iAddA);
    vc_replace(pm(static_cast<I (I::*)(const I &)>(&I::operator-=)), (const void *)&iSubA);
    vc_replace(pm(static_cast<I (I::*)(const I &)>(&I::operator*=)), (const void *)&iMulA);
    vc_replace(pm(static_cast<I (I::*)(uint32_t) const>(&I::operator<<)), (const void *)&iShl);
}
template <class T> inline void frameGhost() { vc_frame_allow(&ghost::draws, 8); vc_frame_allow(&ghost::noises, 8); vc_frame_allow(&ghost::drawSum, 8); vc_frame_allow(&ghost::stdev, 8); vc_frame_allow(&ghost::lastNoise, 8); vc_frame_allow(&ghost::fullRange, 1); vc_frame_allow(&ghost::sameStdev, 1); vc_frame_allow(&ghost::noise<T>, sizeof(ghost::noise<T>)); }
inline void resetGhost() {} }
#endif

// a noise term that is larger than this is not a noise term (native search only)
template <class P> static inline bool smallNoise(typename P::T e, double α = P::α)
{
    auto s = (std::make_signed_t<typename P::T>)e; double b = 40. * α * std::pow(2., std::numeric_limits<typename P::T>::digits); return std::abs((double)s) <= b + 2;
}
// coefficient i of poly * X^a, a in [0,2n]: X^j X^a contributes to i when j+a = i mod n
template <class P>
static inline typename P::T coefXai(const Polynomial<P> &poly, uint32_t a, uint32_t i)
{
    uint32_t j = (i + 2 * P::n - a) & (P::n - 1);
    return (((j + a) / P::n) & 1) ? (typename P::T)(-poly[j]) : poly[j];
}
