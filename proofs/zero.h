#pragma once
// Contract of trlweSymEncryptZero (proved in C02): a fresh encryption of zero under
// the given key with the given noise width.  Under the verifier every call returns a
// new arbitrary ciphertext that the ghost state remembers; natively it is the real one.
#include "common.h"
namespace ghost {
inline uint64_t zeros; inline bool zeroKey, zeroAlpha; inline double zAlpha;
template <class P> inline const Key<P> *zKey;
template <class P> inline std::array<TRLWE<P>, 64> zero;
template <class P> inline uint64_t zCap;
}
#if VC_ENGINE
namespace vc {
template <class P> static TRLWE<P> zeroStub(const double α, const Key<P> &key)
{
    TRLWE<P> c; vc::fresh(c, "zero");
    if (&key != ghost::zKey<P>) ghost::zeroKey = false;
    if (!(α == ghost::zAlpha)) ghost::zeroAlpha = false;
    if (ghost::zeros < 64) ghost::zero<P>[ghost::zeros] = c;
    ghost::zeros++; return c;
}
template <class P> inline void replaceZero(const Key<P> &key, double α) { using F = TRLWE<P>(const double, const Key<P> &); vc_replace(fa<F>(&trlweSymEncryptZero<P>), fa<F>(&zeroStub<P>)); ghost::zeros = 0; ghost::zeroKey = ghost::zeroAlpha = true; ghost::zKey<P> = &key; ghost::zAlpha = α; }
template <class P> inline void frameZero() { vc_frame_allow(&ghost::zeros, 8); vc_frame_allow(&ghost::zeroKey, 1); vc_frame_allow(&ghost::zeroAlpha, 1); vc_frame_allow(&ghost::zero<P>, sizeof(ghost::zero<P>)); }
// a linear hash with pairwise distinct coefficients: two rows of independent unknowns
// have equal hashes exactly when they are equal element by element
template <class P> static typename P::T rowHash(const TRLWE<P> &r) { typename P::T s = 0; for (uint32_t m = 0; m <= P::k; m++) for (uint32_t j = 0; j < P::n; j++) s += (typename P::T)(m * P::n + j + 1) * r[m][j]; return s; }
}
#else
namespace vc { template <class P> inline void replaceZero(const Key<P> &, double) {} template <class P> inline void frameZero() {} }
#endif
template <class P> static void freshKey(Key<P> &key, const char *nm) { if (VC_ENGINE) vc::fresh(key, nm); else vc::fresh_range(key, nm, P::key_value_min, P::key_value_max); }
// rows[r] must be a fresh encryption of zero plus known gadget terms (already
// subtracted by the caller), every encryption of zero being used once
template <class P> static void checkZeroRows(const TRLWE<P> *rows, uint32_t cnt, const Key<P> &key, double α, double fdSlack = 1)
{
#if VC_ENGINE
    vc_assert(ghost::zeros == cnt, "one fresh encryption of zero per row");
    vc_assert(ghost::zeroKey, "rows are encrypted under the given key"); vc_assert(ghost::zeroAlpha, "rows carry the requested noise width");
    std::array<typename P::T, 64> a{}, b{};
    for (uint32_t r = 0; r < cnt; r++) { a[r] = vc::rowHash<P>(rows[r]); b[r] = vc::rowHash<P>(ghost::zero<P>[r]); }
    vc_assert_perm(&a, &b, cnt, sizeof(typename P::T), "every row is one fresh encryption of zero plus its gadget terms");
#else
    vc::Box<Polynomial<P>> ph;
    for (uint32_t r = 0; r < cnt; r++) {
        *ph = trlwePhase<P>(rows[r], key); uint32_t z = 0; double e2 = 0;
        for (uint32_t i = 0; i < P::n; i++) { auto s = (double)(std::make_signed_t<typename P::T>)(*ph)[i]; e2 += s * s; vc_assert(smallNoise<P>((*ph)[i], α * fdSlack), "every row is one fresh encryption of zero plus its gadget terms"); z += rows[r][0][i] == rows[r][0][(i + 1) % P::n]; }
        vc_assert(z < P::n / 8, "every row is one fresh encryption of zero plus its gadget terms");
        double want = α * std::pow(2., std::numeric_limits<typename P::T>::digits), got = std::sqrt(e2 / P::n);
        vc_assert(want < 64 || (got > want / 2 && got < want * 2 * fdSlack), "rows carry the requested noise width");
        for (uint32_t q = 0; q < r; q++) vc_assert(rows[r][0] != rows[q][0], "every row is one fresh encryption of zero plus its gadget terms");
    }
#endif
}
