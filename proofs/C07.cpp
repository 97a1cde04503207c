// C07: key switching is the exact gadget-digit combination of the key rows.
#include "common.h"
// balanced digit j (base 2^b, t digits) of a rounded to t*b bits: in [-2^(b-1), 2^(b-1))
template <class T, uint32_t b, uint32_t t> static int32_t sdigit(T a, uint32_t j)
{
    constexpr uint32_t W = std::numeric_limits<T>::digits; T x = a;
    if constexpr (b * t < W) x += (T)1 << (W - b * t - 1);
    for (uint32_t i = 1; i <= t; i++) x += (T)1 << (W - i * b + b - 1);
    return (int32_t)((x >> (W - (j + 1) * b)) & (((T)1 << b) - 1)) - (int32_t)(1u << (b - 1));
}
// plain digit j of a rounded to t*b bits: in [0, 2^b)
template <class T, uint32_t b, uint32_t t> static uint32_t udigit(T a, uint32_t j)
{
    constexpr uint32_t W = std::numeric_limits<T>::digits; T x = a + ((T)1 << (W - b * t - 1));
    return (uint32_t)(x >> (W - (j + 1) * b)) & ((1u << b) - 1);
}
// torus element carried over to another torus: rounded to nearest / embedded
template <class R, class T> static R carry(T x)
{
    constexpr int w = std::numeric_limits<T>::digits, r = std::numeric_limits<R>::digits;
    if constexpr (w == r) return x; else if constexpr (w > r) return (R)((x + ((T)1 << (w - r - 1))) >> (w - r)); else return (R)((R)x << (r - w));
}
// digits recompose: sum_j d_j q/B^(j+1) = a up to half a unit of the last digit
template <class P, bool sgn> static void digits()
{
    using T = std::conditional_t<sgn, typename P::domainP::T, typename P::domainP::T>; constexpr uint32_t W = std::numeric_limits<T>::digits, b = P::basebit, t = P::t;
    vc_contract("digit recomposition lemma"); T a; vc_fresh(&a, 1, sizeof a, "a"); T s = 0;
    for (uint32_t j = 0; j < t; j++) { if constexpr (sgn) { int32_t d = sdigit<T, b, t>(a, j); vc_assert(d >= -(1 << (b - 1)) && d < (1 << (b - 1)), "digits are balanced"); s += (T)(std::make_signed_t<T>)d << (W - (j + 1) * b); } else s += (T)udigit<T, b, t>(a, j) << (W - (j + 1) * b); }
    if constexpr (b * t == W) vc_assert(s == a, "digits recompose exactly");
    else { constexpr T h = (T)1 << (W - b * t - 1); T e = a - s; vc_assert((T)(e + h) < (T)(2 * h), "digits recompose up to half a unit"); }
    vc_cover("digits");
}
PROOF(C07_digits_lvl10) { digits<lvl10param, true>(); }
PROOF(C07_digits_lvl1h) { digits<lvl1hparam, true>(); }
PROOF(C07_digits_lvl20) { digits<lvl20param, true>(); }
PROOF(C07_digits_lvl21) { digits<lvl21param, true>(); }
PROOF(C07_digits_lvl22) { digits<lvl22param, true>(); }
PROOF(C07_digits_lvl11) { digits<lvl11param, true>(); }
PROOF(C07_udigits_lvl21) { digits<lvl21param, false>(); }

// res = (0, b') - sum_i sum_j d_ij ksk[i][j]: a negative digit adds the row of its magnitude
template <class P> static void specIks(TLWE<typename P::targetP> &want, const TLWE<typename P::domainP> &c, const KeySwitchingKey<P> &ksk)
{
    using D = typename P::domainP; using R = typename P::targetP; constexpr uint32_t n = R::k * R::n;
    for (uint32_t k = 0; k < n; k++) want[k] = 0;
    want[n] = carry<typename R::T>(c[D::k * D::n]);
    for (uint32_t i = 0; i < D::k * D::n; i++) for (uint32_t j = 0; j < P::t; j++) {
        int32_t d = sdigit<typename D::T, P::basebit, P::t>(c[i], j);
        if (d > 0) for (uint32_t k = 0; k <= n; k++) want[k] -= ksk[i][j][d - 1][k];
        else if (d < 0) for (uint32_t k = 0; k <= n; k++) want[k] += ksk[i][j][-d - 1][k];
    }
}
template <class P>
static void iks()
{
    using D = typename P::domainP; using R = typename P::targetP; vc_contract("IdentityKeySwitch");
    vc::Box<TLWE<D>> c; vc::fresh(*c, "c"); vc::Box<KeySwitchingKey<P>> ksk; vc::fresh(*ksk, "ksk"); vc::Box<TLWE<R>> res, want; vc::fresh(*res, "res0");
    specIks<P>(*want, *c, *ksk);
    vc_frame_begin(); vc::frame(*res); IdentityKeySwitch<P>(*res, *c, *ksk); vc_frame_end();
    vc::eq(*res, *want, "res = (0, b') - sum of digit * key row");
    vc_cover("iks");
}
PROOF(C07_iks_lvl10) { iks<lvl10param>(); }
PROOF(C07_iks_lvl1h) { iks<lvl1hparam>(); }
PROOF(C07_iks_lvl20) { iks<lvl20param>(); }
PROOF(C07_iks_lvl2h) { iks<lvl2hparam>(); }
PROOF(C07_iks_lvl21) { iks<lvl21param>(); }
// several ciphertexts at once: each entry is switched on its own
template <class P, uint32_t cnt>
static void cat()
{
    using D = typename P::domainP; using R = typename P::targetP; vc_contract("CatIdentityKeySwitch");
    vc::Box<std::array<TLWE<D>, cnt>> c; vc::fresh(*c, "c"); vc::Box<KeySwitchingKey<P>> ksk; vc::fresh(*ksk, "ksk"); vc::Box<std::array<TLWE<R>, cnt>> res, want; vc::fresh(*res, "res0");
    for (uint32_t q = 0; q < cnt; q++) specIks<P>((*want)[q], (*c)[q], *ksk);
    vc_frame_begin(); vc::frame(*res); CatIdentityKeySwitch<P, cnt>(*res, *c, *ksk); vc_frame_end();
    for (uint32_t q = 0; q < cnt; q++) vc::eq((*res)[q], (*want)[q], "entry q is the key switch of input q");
    vc_cover("cat");
}
PROOF(C07_cat_lvl10) { cat<lvl10param, 2>(); }

// the target key is a prefix of the domain key: only the rest is switched
template <class P>
static void subset()
{
    using D = typename P::domainP; using R = typename P::targetP; using T = typename R::T; constexpr uint32_t n = R::k * R::n, N = D::k * D::n; vc_contract("SubsetIdentityKeySwitch");
    vc::Box<TLWE<D>> c; vc::fresh(*c, "c"); vc::Box<SubsetKeySwitchingKey<P>> ksk; vc::fresh(*ksk, "ksk"); vc::Box<TLWE<R>> res, want; vc::fresh(*res, "res0");
    for (uint32_t k = 0; k < n; k++) (*want)[k] = carry<T>((*c)[k]);
    (*want)[n] = carry<T>((*c)[N]);
    for (uint32_t i = 0; i < N - n; i++) for (uint32_t j = 0; j < P::t; j++) {
        uint32_t d = udigit<typename D::T, P::basebit, P::t>((*c)[n + i], j);
        if (d) for (uint32_t k = 0; k <= n; k++) (*want)[k] -= (*ksk)[i][j][d - 1][k];
    }
    vc_frame_begin(); vc::frame(*res); SubsetIdentityKeySwitch<P>(*res, *c, *ksk); vc_frame_end();
    vc::eq(*res, *want, "res = (rounded prefix, b') - sum of digit * key row over the remaining key");
    vc_cover("subset");
}
PROOF(C07_subset_lvl21) { subset<lvl21param>(); }

// private functional key switching: res = - sum_i sum_j d_ij privksk[i][j], i over mask and body
template <class P>
static void priv()
{
    using D = typename P::domainP; using R = typename P::targetP; vc_contract("PrivKeySwitch");
    vc::Box<TLWE<D>> c; vc::fresh(*c, "c"); vc::Box<PrivateKeySwitchingKey<P>> ksk; vc::fresh(*ksk, "privksk"); vc::Box<TRLWE<R>> res, want; vc::fresh(*res, "res0");
    for (uint32_t m = 0; m <= R::k; m++) for (uint32_t k = 0; k < R::n; k++) (*want)[m][k] = 0;
    for (uint32_t i = 0; i <= D::k * D::n; i++) for (uint32_t j = 0; j < P::t; j++) {
        int32_t d = sdigit<typename D::T, P::basebit, P::t>((*c)[i], j);
        if (d > 0) for (uint32_t m = 0; m <= R::k; m++) for (uint32_t k = 0; k < R::n; k++) (*want)[m][k] -= (*ksk)[i][j][d - 1][m][k];
        else if (d < 0) for (uint32_t m = 0; m <= R::k; m++) for (uint32_t k = 0; k < R::n; k++) (*want)[m][k] += (*ksk)[i][j][-d - 1][m][k];
    }
    vc_frame_begin(); vc::frame(*res); PrivKeySwitch<P>(*res, *c, *ksk); vc_frame_end();
    vc::eq(*res, *want, "res = - sum of digit * key row over mask and body");
    vc_cover("priv");
}
PROOF(C07_priv_lvl11) { priv<lvl11param>(); }
PROOF(C07_priv_lvl21) { priv<lvl21param>(); }

// input already under the target (prefix) key
template <class P>
static void subpriv()
{
    using R = typename P::targetP; vc_contract("SubsetPrivKeySwitch");
    vc::Box<TLWE<R>> c; vc::fresh(*c, "c"); vc::Box<SubsetPrivateKeySwitchingKey<P>> ksk; vc::fresh(*ksk, "privksk"); vc::Box<TRLWE<R>> res, want; vc::fresh(*res, "res0");
    for (uint32_t m = 0; m <= R::k; m++) for (uint32_t k = 0; k < R::n; k++) (*want)[m][k] = 0;
    for (uint32_t i = 0; i <= R::k * R::n; i++) for (uint32_t j = 0; j < P::t; j++) {
        uint32_t d = udigit<typename R::T, P::basebit, P::t>((*c)[i], j);
        if (d) for (uint32_t m = 0; m <= R::k; m++) for (uint32_t k = 0; k < R::n; k++) (*want)[m][k] -= (*ksk)[i][j][d - 1][m][k];
    }
    vc_frame_begin(); vc::frame(*res); SubsetPrivKeySwitch<P>(*res, *c, *ksk); vc_frame_end();
    vc::eq(*res, *want, "res = - sum of digit * key row over mask and body");
    vc_cover("subpriv");
}
PROOF(C07_subpriv_lvl21) { subpriv<lvl21param>(); }

template <class P>
static void ring()
{
    using D = typename P::domainP; using R = typename P::targetP; vc_contract("TLWE2TRLWEIKS");
    vc::Box<TLWE<D>> c; vc::fresh(*c, "c"); vc::Box<TLWE2TRLWEIKSKey<P>> ksk; vc::fresh(*ksk, "iksk"); vc::Box<TRLWE<R>> res, want; vc::fresh(*res, "res0");
    for (uint32_t m = 0; m <= R::k; m++) for (uint32_t k = 0; k < R::n; k++) (*want)[m][k] = 0;
    (*want)[R::k][0] = carry<typename R::T>((*c)[D::n]);
    for (uint32_t i = 0; i < D::n; i++) for (uint32_t j = 0; j < P::t; j++) {
        uint32_t d = udigit<typename D::T, P::basebit, P::t>((*c)[i], j);
        if (d) for (uint32_t m = 0; m <= R::k; m++) for (uint32_t k = 0; k < R::n; k++) (*want)[m][k] -= (*ksk)[i][j][d - 1][m][k];
    }
    vc_frame_begin(); vc::frame(*res); TLWE2TRLWEIKS<P>(*res, *c, *ksk); vc_frame_end();
    vc::eq(*res, *want, "res = (0, b') - sum of digit * key row");
    vc_cover("ring");
}
PROOF(C07_ring_lvl11) { ring<lvl11param>(); }
