// C08: evaluation-key generation.  Encryptions are used through their contracts
// (C01, C02, C06): an uninterpreted function of plaintext, noise width and key, plus a
// ghost count of the calls (every entry is encrypted on its own).
#include "zero.h"
namespace ghost { inline uint64_t encs; }
#if VC_ENGINE
template <class P> static TRGSW<P> trgswStub(const Polynomial<P> &p, const double α, const Key<P> &key)
{
    TRGSW<P> g; ghost::encs++;
    vc_uf_begin("TRGSWEnc"); vc_uf_argb(&p, P::n, sizeof(typename P::T)); vc_uf_argr(α); vc_uf_argb(&key, P::k * P::n, sizeof(typename P::T));
    for (uint32_t r = 0; r < (P::k + 1) * P::l; r++) for (uint32_t m = 0; m <= P::k; m++) vc_uf_out(&g[r][m], P::n, sizeof(typename P::T), r * (P::k + 1) + m);
    return g;
}
template <class P> static HalfTRGSW<P> halfStub(const Polynomial<P> &p, const double α, const Key<P> &key)
{
    HalfTRGSW<P> g; ghost::encs++;
    vc_uf_begin("HalfTRGSWEnc"); vc_uf_argb(&p, P::n, sizeof(typename P::T)); vc_uf_argr(α); vc_uf_argb(&key, P::k * P::n, sizeof(typename P::T));
    for (uint32_t r = 0; r < P::l; r++) for (uint32_t m = 0; m <= P::k; m++) vc_uf_out(&g[r][m], P::n, sizeof(typename P::T), r * (P::k + 1) + m);
    return g;
}
template <class P> static TLWE<P> tlweStub(const typename P::T p, const double α, const Key<P> &key)
{
    TLWE<P> c; ghost::encs++;
    vc_uf_begin("TLWEEnc"); vc_uf_argn(p); vc_uf_argr(α); vc_uf_argb(&key, P::k * P::n, sizeof(typename P::T)); vc_uf_out(&c, P::k * P::n + 1, sizeof(typename P::T), 0);
    return c;
}
template <class P> static TRLWE<P> trlweZeroStub(const double α, const Key<P> &key)
{
    TRLWE<P> c; ghost::encs++;
    vc_uf_begin("TRLWEZero"); vc_uf_argr(α); vc_uf_argb(&key, P::k * P::n, sizeof(typename P::T)); for (uint32_t m = 0; m <= P::k; m++) vc_uf_out(&c[m], P::n, sizeof(typename P::T), m);
    return c;
}
template <class P> static void replaceEnc()
{
    ghost::encs = 0;
    using T = typename P::T;
    if constexpr (P::n >= 1024) {
        vc_replace(vc::fa<TRGSW<P>(const Polynomial<P> &, const double, const Key<P> &)>(&trgswSymEncrypt<P>), vc::fa<TRGSW<P>(const Polynomial<P> &, const double, const Key<P> &)>(&trgswStub<P>));
        vc_replace(vc::fa<HalfTRGSW<P>(const Polynomial<P> &, const double, const Key<P> &)>(&halftrgswSymEncrypt<P>), vc::fa<HalfTRGSW<P>(const Polynomial<P> &, const double, const Key<P> &)>(&halfStub<P>));
        vc_replace(vc::fa<TRLWE<P>(const double, const Key<P> &)>(&trlweSymEncryptZero<P>), vc::fa<TRLWE<P>(const double, const Key<P> &)>(&trlweZeroStub<P>));
    }
    vc_replace(vc::fa<TLWE<P>(const T, const double, const Key<P> &)>(&tlweSymEncrypt<P>), vc::fa<TLWE<P>(const T, const double, const Key<P> &)>(&tlweStub<P>));
}
#else
template <class P> static void replaceEnc() {}
#endif
static void frameEncs() { vc_frame_allow(&ghost::encs, 8); }
template <class P> static void freshKeyR(Key<P> &key, const char *nm) { vc::fresh_range(key, nm, P::key_value_min, P::key_value_max); }
// ---------------------------------------------------------------- bootstrapping keys
// element i, slot c: gadget encryption of [s_i = v_c], v_c the c-th non-zero key value
template <class bkP, int form>
static void bk()
{
    using D = typename bkP::domainP; using P = typename bkP::targetP; using T = typename P::T; constexpr uint32_t N = D::k * D::n, rows = (P::k + 1) * P::l;
    vc_contract(form == 0 ? "bkgen" : form == 1 ? "bkfftgen" : "bknttgen"); replaceEnc<P>(); vc::replaceFFT<P>(); vc::replaceNTT<P>();
    vc::Box<Key<D>> dk; freshKeyR<D>(*dk, "domainkey"); vc::Box<Key<P>> tk; freshKeyR<P>(*tk, "targetkey");
    vc::Box<Polynomial<P>> p; for (uint32_t j = 0; j < P::n; j++) (*p)[j] = 0; vc::Box<TRGSW<P>> g; uint64_t cnt = 0;
    using Out = std::conditional_t<form == 0, BootstrappingKey<bkP>, std::conditional_t<form == 1, BootstrappingKeyFFT<bkP>, BootstrappingKeyNTT<bkP>>>;
    vc::Box<Out> out; vc_frame_begin(); vc::frame(*out); frameEncs();
    if constexpr (form == 0) bkgen<bkP>(*out, *dk, *tk); else if constexpr (form == 1) bkfftgen<bkP>(*out, *dk, *tk); else bknttgen<bkP>(*out, *dk, *tk);
    vc_frame_end();
    vc_assert(!VC_ENGINE || ghost::encs == N * (form == 2 ? 1 : D::key_value_diff), "every entry is encrypted on its own");
    for (uint32_t i = 0; i < N; i++) {
        vc_ctx(i); uint32_t c = 0;
        for (int v = D::key_value_min; v <= D::key_value_max; v++) if (v != 0) {
            (*p)[0] = form == 2 ? (T)(*dk)[i] : (T)((*dk)[i] == (typename D::T)v);
#if VC_ENGINE
            *g = trgswSymEncrypt<P>(*p, P::α, *tk);
            if constexpr (form == 0) vc::eq((*out)[i][c], *g, "bk[i][c] encrypts [s_i = v_c]");
            else if constexpr (form == 1) { vc::Box<TRGSWFFT<P>> w; for (uint32_t r = 0; r < rows; r++) for (uint32_t m = 0; m <= P::k; m++) TwistIFFT<P>((*w)[r][m], (*g)[r][m]); vc::eq((*out)[i][c], *w, "bkfft[i][c] is the transformed encryption of [s_i = v_c]"); }
            else { vc::Box<TRGSWNTT<P>> w; for (uint32_t r = 0; r < rows; r++) for (uint32_t m = 0; m <= P::k; m++) TwistINTT<P>((*w)[r][m], (*g)[r][m]); vc::eq((*out)[i], *w, "bkntt[i] is the transformed encryption of s_i"); }
#else
            if constexpr (form == 0) *g = (*out)[i][c];
            else if constexpr (form == 1) { for (uint32_t r = 0; r < rows; r++) for (uint32_t m = 0; m <= P::k; m++) TwistFFT<P>((*g)[r][m], (*out)[i][c][r][m]); }
            else for (uint32_t r = 0; r < rows; r++) for (uint32_t m = 0; m <= P::k; m++) TwistNTT<P>((*g)[r][m], (*out)[i][r][m]);
            for (uint32_t r = 0; r < rows; r++) (*g)[r][r / P::l][0] -= (*p)[0] << (std::numeric_limits<T>::digits - (r % P::l + 1) * P::Bgbit);
            checkZeroRows<P>(&(*g)[0], rows, *tk, P::α, form == 0 ? 1 : 512);
#endif
            c++;
        }
    }
    vc_cover("bk");
}
PROOF(C08_bk_lvl01) { bk<lvl01param, 0>(); }
PROOF(C08_bk_lvl02) { bk<lvl02param, 0>(); }
PROOF(C08_bk_lvlh1) { bk<lvlh1param, 0>(); }
PROOF(C08_bk_lvlh2) { bk<lvlh2param, 0>(); }
PROOF(C08_bkfft_lvl01) { bk<lvl01param, 1>(); }
PROOF(C08_bkfft_lvl02) { bk<lvl02param, 1>(); }
PROOF(C08_bkfft_lvlh1) { bk<lvlh1param, 1>(); }
PROOF(C08_bkfft_lvlh2) { bk<lvlh2param, 1>(); }
PROOF(C08_bkntt_lvl01) { bk<lvl01param, 2>(); }
PROOF(C08_bkntt_lvl02) { bk<lvl02param, 2>(); }

// ---------------------------------------------------------------- key-switching keys
template <class D> static int64_t sv(const Key<D> &k, uint32_t i) { return (int64_t)(std::make_signed_t<typename D::T>)k[i]; }
template <class P, bool sub>
static void iksk()
{
    using D = typename P::domainP; using R = typename P::targetP; using T = typename R::T; constexpr uint32_t W = std::numeric_limits<T>::digits, S = sub ? R::k * R::n : 0, N = D::k * D::n - S, K = sub ? (1 << P::basebit) - 1 : 1 << (P::basebit - 1);
    vc_contract(sub ? "subikskgen" : "ikskgen"); replaceEnc<R>();
    vc::Box<Key<D>> dk; freshKeyR<D>(*dk, "domainkey"); vc::Box<Key<R>> tk; if (sub) for (uint32_t i = 0; i < R::k * R::n; i++) (*tk)[i] = (T)(*dk)[i]; else freshKeyR<R>(*tk, "targetkey");
    using Out = std::conditional_t<sub, SubsetKeySwitchingKey<P>, KeySwitchingKey<P>>;
    vc::Box<Out> out; vc_frame_begin(); vc::frame(*out); frameEncs();
    if constexpr (sub) subikskgen<P>(*out, *dk); else ikskgen<P>(*out, *dk, *tk);
    vc_frame_end();
    vc_assert(!VC_ENGINE || ghost::encs == (uint64_t)N * P::t * K, "every entry is encrypted on its own");
    vc::Box<TLWE<R>> w;
    for (uint32_t i = 0; i < N; i++) for (uint32_t j = 0; j < P::t; j++) for (uint32_t k = 0; k < K; k++) {
        T m = (T)((T)(sv<D>(*dk, S + i)) * (T)(k + 1) * (T)((T)1 << (W - (j + 1) * P::basebit)));
#if VC_ENGINE
        *w = tlweSymEncrypt<R>(m, R::α, *tk); vc::eq((*out)[i][j][k], *w, "ksk[i][j][k] encrypts s_i (k+1) q/B^(j+1)");
#else
        vc_assert(smallNoise<R>((T)(tlweSymPhase<R>((*out)[i][j][k], *tk) - m)), "ksk[i][j][k] encrypts s_i (k+1) q/B^(j+1)");
#endif
    }
    vc_cover("iksk");
}
PROOF(C08_iksk_lvl10) { iksk<lvl10param, false>(); }
PROOF(C08_iksk_lvl1h) { iksk<lvl1hparam, false>(); }
PROOF(C08_iksk_lvl20) { iksk<lvl20param, false>(); }
PROOF(C08_iksk_lvl2h) { iksk<lvl2hparam, false>(); }
PROOF(C08_iksk_lvl21) { iksk<lvl21param, false>(); }
PROOF(C08_iksk_lvl22) { iksk<lvl22param, false>(); }
PROOF(C08_iksk_lvl31) { iksk<lvl31param, false>(); }
PROOF(C08_subiksk_lvl21) { iksk<lvl21param, true>(); }

// private key switching: b part of entry (i,j,u) carries (u+1) f key_i q/B^(j+1), key_n = -1
template <class P, bool sub>
static void privksk()
{
    using D = typename P::domainP; using R = typename P::targetP; using T = typename R::T; constexpr uint32_t W = std::numeric_limits<T>::digits, N = sub ? R::k * R::n : D::k * D::n, K = sub ? (1 << P::basebit) - 1 : 1 << (P::basebit - 1);
    vc_contract(sub ? "subprivkskgen" : "privkskgen"); replaceEnc<R>();
    vc::Box<Key<D>> dk; freshKeyR<D>(*dk, "domainkey"); vc::Box<Key<R>> tk; freshKeyR<R>(*tk, "targetkey"); vc::Box<Polynomial<R>> f; vc::fresh(*f, "func");
    using Out = std::conditional_t<sub, SubsetPrivateKeySwitchingKey<P>, PrivateKeySwitchingKey<P>>;
    vc::Box<Out> out; vc_frame_begin(); vc::frame(*out); frameEncs();
    if constexpr (sub) subprivkskgen<P>(*out, *f, *dk, *tk); else privkskgen<P>(*out, *f, *dk, *tk);
    vc_frame_end();
    vc_assert(!VC_ENGINE || ghost::encs == (uint64_t)(N + 1) * P::t * K, "every entry is encrypted on its own");
    vc::Box<TRLWE<R>> z, w; if (VC_ENGINE) *z = trlweSymEncryptZero<R>(R::α, *tk); vc::Box<Polynomial<R>> ph;
    for (uint32_t i = 0; i <= N; i++) for (uint32_t j = 0; j < P::t; j++) for (uint32_t u = 0; u < K; u++) {
        if (!VC_ENGINE && (i * 31 + j * 7 + u) % 97) continue;
        T s = i == N ? (T)-1 : (T)sv<D>(*dk, i), c = (T)((T)(u + 1) * s * (T)((T)1 << (W - (j + 1) * P::basebit)));
        if (VC_ENGINE) {
            *w = *z; for (uint32_t k = 0; k < R::n; k++) (*w)[R::k][k] += c * (*f)[k];
            vc::eq((*out)[i][j][u], *w, "entry = zero encryption + (u+1) f key_i q/B^(j+1)");
        } else {
            *w = (*out)[i][j][u]; for (uint32_t k = 0; k < R::n; k++) (*w)[R::k][k] -= c * (*f)[k];
            *ph = trlwePhase<R>(*w, *tk); for (uint32_t k = 0; k < R::n; k++) vc_assert(smallNoise<R>((*ph)[k]), "entry = zero encryption + (u+1) f key_i q/B^(j+1)");
        }
    }
    vc_cover("privksk");
}
PROOF(C08_privksk_lvl11) { privksk<lvl11param, false>(); }
PROOF(C08_privksk_lvl21) { privksk<lvl21param, false>(); }
PROOF(C08_privksk_lvl22) { privksk<lvl22param, false>(); }
PROOF(C08_subprivksk_lvl21) { privksk<lvl21param, true>(); }
