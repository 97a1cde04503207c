// C11: circuit bootstrapping.  Multi-output bootstrapping (C09), key switching (C07) and
// transforms are used through their contracts.
#include "boot.h"
#include <circuitbootstrapping.hpp>
#include "hash.h"

#if VC_ENGINE
namespace vc {
template <class bk, uint32_t L> static void lutStub(std::array<TLWE<typename bk::targetP>, L> &res, const TLWE<typename bk::domainP> &c, const BootstrappingKeyFFT<bk> &key, const Polynomial<typename bk::targetP> &tv)
{
    using D = typename bk::domainP; using T = typename bk::targetP;
    for (uint32_t i = 0; i < L; i++) { vc_uf_begin("ManyLUT"); vc_uf_argn(i); vc_uf_argn((uint64_t)&key); vc_uf_argb(&c, D::k * D::n + 1, sizeof(typename D::T)); vc_uf_argb(&tv, T::n, sizeof(typename T::T)); vc_uf_out(&res[i], T::k * T::n + 1, sizeof(typename T::T), 0); }
}
template <class bk, uint32_t L> static void replaceLUT() { using F = void(std::array<TLWE<typename bk::targetP>, L> &, const TLWE<typename bk::domainP> &, const BootstrappingKeyFFT<bk> &, const Polynomial<typename bk::targetP> &); vc_replace(fa<F>(&GateBootstrappingManyLUT<bk, L>), fa<F>(&lutStub<bk, L>)); }
template <class P, class K, uint32_t N, class In> static void privStub(TRLWE<typename P::targetP> &res, const In &c, const K &key)
{
    using T = typename P::targetP;
    for (uint32_t m = 0; m <= T::k; m++) { vc_uf_begin("PrivKeySwitch"); vc_uf_argn(m); vc_uf_argn((uint64_t)&key); vc_uf_argb(&c, N, sizeof(c[0])); vc_uf_out(&res[m], T::n, sizeof(typename T::T), 0); }
}
template <class P> static void replacePriv() { using D = typename P::domainP; using F = void(TRLWE<typename P::targetP> &, const TLWE<D> &, const PrivateKeySwitchingKey<P> &); vc_replace(fa<F>(&PrivKeySwitch<P>), fa<F>(&privStub<P, PrivateKeySwitchingKey<P>, D::k * D::n + 1, TLWE<D>>)); }
template <class P> static void replaceSub()
{
    using D = typename P::domainP; using T = typename P::targetP;
    { using F = void(TRLWE<T> &, const TLWE<T> &, const SubsetPrivateKeySwitchingKey<P> &); vc_replace(fa<F>(&SubsetPrivKeySwitch<P>), fa<F>(&privStub<P, SubsetPrivateKeySwitchingKey<P>, T::k * T::n + 1, TLWE<T>>)); }
    { using F = void(TLWE<T> &, const TLWE<D> &, const SubsetKeySwitchingKey<P> &); F *s = [](TLWE<T> &res, const TLWE<D> &c, const SubsetKeySwitchingKey<P> &key) { vc_uf_begin("SubsetKeySwitch"); vc_uf_argn((uint64_t)&key); vc_uf_argb(&c, D::k * D::n + 1, sizeof(typename D::T)); vc_uf_out(&res, T::k * T::n + 1, sizeof(typename T::T), 0); }; vc_replace(fa<F>(&SubsetIdentityKeySwitch<P>), fa<F>(s)); }
}
}
#else
namespace vc { template <class bk, uint32_t L> static void replaceLUT() {} template <class P> static void replacePriv() {} template <class P> static void replaceSub() {} }
#endif
// one private key per ring component, under the names circuit bootstrapping asks for
template <class P> struct PrivKeys {
    using K = PrivateKeySwitchingKey<P>; K *key[P::targetP::k + 1];
    PrivKeys(EvalKey &ek)
    {
        for (uint32_t k = 0; k <= P::targetP::k; k++) {
            key[k] = (K *)::operator new(sizeof(K), std::align_val_t(4096));
            if (!VC_ENGINE) for (size_t i = 5; i < key[k]->size(); i += i + 100 < key[k]->size() ? 100 : key[k]->size() - 1 - i ? key[k]->size() - 1 - i : 1) vc::fresh((*key[k])[i], "privksk");
            auto sp = std::shared_ptr<K>(std::shared_ptr<void>(), key[k]);
            if constexpr (std::is_same_v<P, lvl11param>) ek.privksklvl11["privksk4cb_" + std::to_string(k)] = sp; else if constexpr (std::is_same_v<P, lvl21param>) ek.privksklvl21["privksk4cb_" + std::to_string(k)] = sp; else ek.privksklvl22["privksk4cb_" + std::to_string(k)] = sp;
        }
    }
};
template <class P> static void specTv(Polynomial<typename P::domainP> &tv)
{
    using D = typename P::domainP; constexpr uint32_t W = std::numeric_limits<typename D::T>::digits, bw = bwOf(P::targetP::l);
    for (uint32_t i = 0; i < D::n; i++) tv[i] = (typename D::T)1 << (W - 1 - ((i & ((1u << bw) - 1)) + 1) * P::targetP::Bgbit);
}
template <class bk, class P> static void specCB(TRGSW<typename P::targetP> &want, const TLWE<typename bk::domainP> &c, vc::Keys &ks, PrivKeys<P> &pk)
{
    using D = typename P::domainP; using T = typename P::targetP; constexpr uint32_t W = std::numeric_limits<typename D::T>::digits;
    vc::Box<Polynomial<D>> tv; specTv<P>(*tv); vc::Box<std::array<TLWE<D>, T::l>> t;
    GateBootstrappingManyLUT<bk, T::l>(*t, c, ks.bkfft<bk>(), *tv);
    for (uint32_t i = 0; i < T::l; i++) {
        (*t)[i][D::k * D::n] += (typename D::T)1 << (W - 1 - (i + 1) * T::Bgbit);
        for (uint32_t k = 0; k <= T::k; k++) PrivKeySwitch<P>(want[k * T::l + i], (*t)[i], *pk.key[k]);
    }
}
template <class iks, class bk, class P, bool withIks> static void cb()
{
    using T = typename P::targetP; using In = std::conditional_t<withIks, typename iks::domainP, typename bk::domainP>;
    vc_contract(withIks ? "CircuitBootstrapping (switch first)" : "CircuitBootstrapping"); vc_contract("CBtestvector"); vc_contract("EvalKey::getprivksk"); vc::replaceLUT<bk, T::l>(); vc::replacePriv<P>(); vc::replaceIKS<iks>();
    static vc::Keys ks; ks.bk<bk>(); ks.iks<iks>(); static PrivKeys<P> pk(ks.ek);
    vc::Box<TLWE<In>> c; vc::fresh(*c, "c"); vc::Box<TRGSW<T>> res, want; vc::fresh(*res, "res0"); vc::Box<TLWE<typename bk::domainP>> m;
    if constexpr (withIks) { IdentityKeySwitch<iks>(*m, *c, ks.iksk<iks>()); specCB<bk, P>(*want, *m, ks, pk); } else specCB<bk, P>(*want, *c, ks, pk);
    vc_frame_begin(); vc::frame(*res); if constexpr (withIks) CircuitBootstrapping<iks, bk, P>(*res, *c, ks.ek); else CircuitBootstrapping<bk, P>(*res, *c, ks.ek); vc_frame_end();
    vc::eq(*res, *want, "row (k,i) = private switch with key k of output i of the multi-output bootstrapping, recentred to {0, weight i}"); vc_cover("cb");
}
PROOF(C11_cb_02_21) { cb<lvl10param, lvl02param, lvl21param, false>(); }
PROOF(C11_cb_02_22) { cb<lvl10param, lvl02param, lvl22param, false>(); }
PROOF(C11_cb_10_02_21) { cb<lvl10param, lvl02param, lvl21param, true>(); }
PROOF(C11_cb_10_02_22) { cb<lvl10param, lvl02param, lvl22param, true>(); }

template <class iks, class bk, class P> static void cbsub()
{
    using D = typename P::domainP; using T = typename P::targetP; using In = typename iks::domainP; constexpr uint32_t W = std::numeric_limits<typename D::T>::digits; using K = SubsetPrivateKeySwitchingKey<P>;
    vc_contract("CircuitBootstrappingSub"); vc::replaceLUT<bk, T::l>(); vc::replaceSub<P>(); vc::replaceIKS<iks>();
    static vc::Keys ks; ks.bk<bk>(); ks.iks<iks>(); vc::Keys::own(ks.ek.subiksklvl21); if (!VC_ENGINE) vc::fresh(*ks.ek.subiksklvl21, "subiksk");
    static K *key[T::k + 1]; for (uint32_t k = 0; k <= T::k; k++) { if (!key[k]) { key[k] = (K *)::operator new(sizeof(K), std::align_val_t(4096)); if (!VC_ENGINE) for (size_t i = 0; i < key[k]->size(); i += 64) vc::fresh((*key[k])[i], "subprivksk"); } ks.ek.subprivksklvl21["subprivksk4cb_" + std::to_string(k)] = std::shared_ptr<K>(std::shared_ptr<void>(), key[k]); }
    vc::Box<TLWE<In>> c; vc::fresh(*c, "c"); vc::Box<TRGSW<T>> res, want; vc::fresh(*res, "res0"); vc::Box<TLWE<typename bk::domainP>> m; vc::Box<Polynomial<D>> tv; specTv<P>(*tv); vc::Box<std::array<TLWE<D>, T::l>> t; vc::Box<TLWE<T>> s;
    IdentityKeySwitch<iks>(*m, *c, ks.iksk<iks>()); GateBootstrappingManyLUT<bk, T::l>(*t, *m, ks.bkfft<bk>(), *tv);
    for (uint32_t i = 0; i < T::l; i++) {
        (*t)[i][D::k * D::n] += (typename D::T)1 << (W - 1 - (i + 1) * T::Bgbit); SubsetIdentityKeySwitch<P>(*s, (*t)[i], *ks.ek.subiksklvl21);
        for (uint32_t k = 0; k <= T::k; k++) SubsetPrivKeySwitch<P>((*want)[k * T::l + i], *s, *key[k]);
    }
    vc_frame_begin(); vc::frame(*res); CircuitBootstrappingSub<iks, bk, P>(*res, *c, ks.ek); vc_frame_end();
    vc::eq(*res, *want, "row (k,i) = subset private switch with key k of output i, recentred to {0, weight i}"); vc_cover("cbsub");
}
PROOF(C11_cbsub_10_02_21) { cbsub<lvl10param, lvl02param, lvl21param>(); }

// the recentred outputs are 0 or the gadget weight, whatever the rotation
template <class P> static void weights()
{
    using D = typename P::domainP; using T = typename P::targetP; using U = typename D::T; constexpr uint32_t W = std::numeric_limits<U>::digits, TW = std::numeric_limits<typename T::T>::digits; vc_contract("circuit bootstrapping weights");
    vc::Box<Polynomial<D>> tv; *tv = CBtestvector<P>(); auto h = hgen<T>(); constexpr uint32_t bw = bwOf(T::l);
    for (uint32_t i = 0; i < D::n; i++) {
        uint32_t j = i & ((1u << bw) - 1); if (j >= T::l) continue; U half = (*tv)[i], w = (U)h[j] << (W - TW);
        vc_assert(half + half == w && (U)(half - half) == 0 && (U)(-half + half) == 0, "plus or minus the test value, recentred by it, is 0 or the gadget weight of that digit");
    }
    vc_cover("weights");
}
PROOF(C11_weights_lvl21) { weights<lvl21param>(); }
PROOF(C11_weights_lvl22) { weights<lvl22param>(); }

// derived forms: transforms of the rows, and of their complements around the gadget
#if VC_ENGINE
template <class Pp, class In> static void cbAny(TRGSW<Pp> &res, const TLWE<In> &c, const EvalKey &ek) { for (uint32_t i = 0; i < (Pp::k + 1) * Pp::l; i++) for (uint32_t m = 0; m <= Pp::k; m++) { vc_uf_begin("CircuitBootstrapping"); vc_uf_argn(i * (Pp::k + 1) + m); vc_uf_argn((uint64_t)&ek); vc_uf_argb(&c, In::k * In::n + 1, sizeof(typename In::T)); vc_uf_out(&res[i][m], Pp::n, sizeof(typename Pp::T), 0); } }
#endif
template <class iks, class bk, class P, bool withIks, int kind> static void derived()
{
    using T = typename P::targetP; using In = std::conditional_t<withIks, typename iks::domainP, typename bk::domainP>; constexpr uint32_t R = (T::k + 1) * T::l;
    vc_contract(kind == 0 ? "CircuitBootstrappingFFT" : kind == 1 ? "CircuitBootstrappingFFTInv" : kind == 2 ? "CircuitBootstrappingFFTwithInv" : "CircuitBootstrappingSubFFT"); vc::replaceFFT<T>();
    static vc::Keys ks;
#if VC_ENGINE
    { using F = void(TRGSW<T> &, const TLWE<In> &, const EvalKey &); if constexpr (kind == 3) vc_replace(vc::fa<F>(&CircuitBootstrappingSub<iks, bk, P>), vc::fa<F>(&cbAny<T, In>)); else if constexpr (withIks) vc_replace(vc::fa<F>(&CircuitBootstrapping<iks, bk, P>), vc::fa<F>(&cbAny<T, In>)); else vc_replace(vc::fa<F>(&CircuitBootstrapping<bk, P>), vc::fa<F>(&cbAny<T, In>)); }
#else
    ks.bk<bk>(); ks.iks<iks>(); if constexpr (kind == 3) { vc::Keys::own(ks.ek.subiksklvl21); using K = SubsetPrivateKeySwitchingKey<P>; for (uint32_t k = 0; k <= T::k; k++) { static vc::Box<K> b[2]; ks.ek.subprivksklvl21["subprivksk4cb_" + std::to_string(k)] = std::shared_ptr<K>(std::shared_ptr<void>(), b[k].p); } } else static PrivKeys<P> pk(ks.ek);
#endif
    auto run = [&](TRGSW<T> &r, const TLWE<In> &c) { if constexpr (kind == 3) CircuitBootstrappingSub<iks, bk, P>(r, c, ks.ek); else if constexpr (withIks) CircuitBootstrapping<iks, bk, P>(r, c, ks.ek); else CircuitBootstrapping<bk, P>(r, c, ks.ek); };
    vc::Box<TLWE<In>> c, nc; vc::fresh(*c, "c"); vc::Box<TRGSW<T>> g; vc::Box<TRGSWFFT<T>> res, inv, want, winv; vc::fresh_real(*res, "res0"); vc::fresh_real(*inv, "inv0");
    for (uint32_t i = 0; i <= In::k * In::n; i++) (*nc)[i] = -(*c)[i];
    run(*g, kind == 1 ? *nc : *c);
    for (uint32_t i = 0; i < R; i++) for (uint32_t m = 0; m <= T::k; m++) TwistIFFT<T>((*want)[i][m], (*g)[i][m]);
    if (kind == 2) {
        for (uint32_t i = 0; i < R; i++) for (uint32_t m = 0; m <= T::k; m++) { for (uint32_t j = 0; j < T::n; j++) (*g)[i][m][j] = -(*g)[i][m][j]; if (i / T::l == m) (*g)[i][m][0] += hgen<T>()[i % T::l]; TwistIFFT<T>((*winv)[i][m], (*g)[i][m]); }
    }
    vc_frame_begin(); vc::frame(*res); if (kind == 2) vc::frame(*inv);
    if constexpr (kind == 0) { if constexpr (withIks) CircuitBootstrappingFFT<iks, bk, P>(*res, *c, ks.ek); else CircuitBootstrappingFFT<bk, P>(*res, *c, ks.ek); }
    else if constexpr (kind == 1) { if constexpr (withIks) CircuitBootstrappingFFTInv<iks, bk, P>(*res, *c, ks.ek); else CircuitBootstrappingFFTInv<bk, P>(*res, *c, ks.ek); }
    else if constexpr (kind == 2) { if constexpr (withIks) CircuitBootstrappingFFTwithInv<iks, bk, P>(*res, *inv, *c, ks.ek); else CircuitBootstrappingFFTwithInv<bk, P>(*res, *inv, *c, ks.ek); }
    else CircuitBootstrappingSubFFT<iks, bk, P>(*res, *c, ks.ek);
    vc_frame_end(); vc::eq(*res, *want, kind == 1 ? "transform of the gadget ciphertext of the negated input" : "transform of every row of the gadget ciphertext");
    if (kind == 2) vc::eq(*inv, *winv, "transform of gadget minus every row"); vc_cover("derived");
}
PROOF(C11_fft_02_21) { derived<lvl10param, lvl02param, lvl21param, false, 0>(); }
PROOF(C11_fft_10_02_21) { derived<lvl10param, lvl02param, lvl21param, true, 0>(); }
PROOF(C11_fft_10_02_22) { derived<lvl10param, lvl02param, lvl22param, true, 0>(); }
PROOF(C11_fftinv_02_21) { derived<lvl10param, lvl02param, lvl21param, false, 1>(); }
PROOF(C11_fftinv_10_02_21) { derived<lvl10param, lvl02param, lvl21param, true, 1>(); }
PROOF(C11_fftinv_10_02_22) { derived<lvl10param, lvl02param, lvl22param, true, 1>(); }
PROOF(C11_withinv_02_21) { derived<lvl10param, lvl02param, lvl21param, false, 2>(); }
PROOF(C11_withinv_02_22) { derived<lvl10param, lvl02param, lvl22param, false, 2>(); }
PROOF(C11_withinv_10_02_21) { derived<lvl10param, lvl02param, lvl21param, true, 2>(); }
PROOF(C11_withinv_10_02_22) { derived<lvl10param, lvl02param, lvl22param, true, 2>(); }
PROOF(C11_subfft_10_02_21) { derived<lvl10param, lvl02param, lvl21param, true, 3>(); }
