// C09: blind rotation and scalar bootstrapping.
// A controlled rotation is used through its contract (C05): it is a function of the
// accumulator, the key entry and the exponent modulo 2n, and exponent 0 changes nothing.
#include "boot.h"

template <class P, uint32_t num_out, class BK>
static void specRotate(TRLWE<typename P::targetP> &acc, const TLWE<typename P::domainP> &c, const BK &bk)
{
    using D = typename P::domainP; using T = typename P::targetP; constexpr uint32_t bw = num_out <= 1 ? 0 : num_out <= 2 ? 1 : num_out <= 4 ? 2 : 3, W = std::numeric_limits<typename D::T>::digits;
    for (uint32_t i = 0; i < D::k * D::n; i++) vc::step<P>(acc, bk[i], roundRot<D, T, bw>(c[i]));
}
template <class P, uint32_t num_out, class BK>
static void blind()
{
    using D = typename P::domainP; using T = typename P::targetP; vc_contract("BlindRotate"); vc::replaceStep<P>(); vc::replaceXai<T>();
    vc::Box<TLWE<D>> c; vc::fresh(*c, "c"); vc::Box<Polynomial<T>> tv; vc::fresh(*tv, "testvector"); vc::Box<BK> bk; vc::freshBK<P>(*bk);
    vc::Box<TRLWE<T>> res, want; vc::fresh(*res, "res0");
    *want = {}; vc::xai<T>((*want)[T::k], *tv, truncRot<D, T, bwOf(num_out)>((*c)[D::k * D::n]));
    specRotate<P, num_out>(*want, *c, *bk);
    vc_frame_begin(); vc::frame(*res); BlindRotate<P, num_out>(*res, *c, *bk, *tv); vc_frame_end();
    vc::eq(*res, *want, "blind rotation: X^-b test polynomial, then one controlled rotation by the rounded a_i per mask coefficient"); vc_cover("blind");
}
template <class P, uint32_t num_out>
static void blindring()
{
    using D = typename P::domainP; using T = typename P::targetP; using BK = BootstrappingKeyFFT<P>; vc_contract("BlindRotate (ring test vector)"); vc::replaceStep<P>(); vc::replaceXai<T>();
    vc::Box<TLWE<D>> c; vc::fresh(*c, "c"); vc::Box<TRLWE<T>> tv; vc::fresh(*tv, "testvector"); vc::Box<BK> bk; vc::freshBK<P>(*bk);
    vc::Box<TRLWE<T>> res, want; vc::fresh(*res, "res0");
    for (uint32_t m = 0; m <= T::k; m++) vc::xai<T>((*want)[m], (*tv)[m], truncRot<D, T, bwOf(num_out)>((*c)[D::k * D::n]));
    specRotate<P, num_out>(*want, *c, *bk);
    vc_frame_begin(); vc::frame(*res); BlindRotate<P, num_out>(*res, *c, *bk, *tv); vc_frame_end();
    vc::eq(*res, *want, "blind rotation of an encrypted test polynomial"); vc_cover("blindring");
}
PROOF(C09_blind_lvl01) { blind<lvl01param, 1, BootstrappingKeyFFT<lvl01param>>(); }
PROOF(C09_blind_lvl02) { blind<lvl02param, 1, BootstrappingKeyFFT<lvl02param>>(); }
PROOF(C09_blind_lvlh1) { blind<lvlh1param, 1, BootstrappingKeyFFT<lvlh1param>>(); }
PROOF(C09_blind_lvlh2__t) { blind<lvlh2param, 1, BootstrappingKeyFFT<lvlh2param>>(); }
PROOF(C09_blind2_lvl01) { blind<lvl01param, 2, BootstrappingKeyFFT<lvl01param>>(); }
PROOF(C09_blind3_lvl02) { blind<lvl02param, lvl1param::l, BootstrappingKeyFFT<lvl02param>>(); }
PROOF(C09_blind4_lvl02) { blind<lvl02param, lvl2param::l, BootstrappingKeyFFT<lvl02param>>(); }
PROOF(C09_blindntt_lvl01) { blind<lvl01param, 1, BootstrappingKeyNTT<lvl01param>>(); }
PROOF(C09_blindntt_lvl02) { blind<lvl02param, 1, BootstrappingKeyNTT<lvl02param>>(); }
PROOF(C09_blindraintt_lvl01) { blind<lvl01param, 1, BootstrappingKeyRAINTT<lvl01param>>(); }
PROOF(C09_blindring_lvl01) { blindring<lvl01param, 1>(); }

// the amounts above are the nearest (mask) and the lower (body) multiples of 2n/2^bw positions
template <class D, class T, uint32_t bw> static void amounts()
{
    using U = typename D::T; constexpr uint32_t W = std::numeric_limits<U>::digits, sh = W - 1 - T::nbit;
    U a; vc_fresh(&a, 1, sizeof a, "a"); uint32_t r = roundRot<D, T, bw>(a), t = 2 * T::n - truncRot<D, T, bw>(a);
    U dr = a - (U)((U)r << sh), dt = a - (U)((U)t << sh); constexpr U half = (U)1 << (sh + bw - 1);
    vc_assert((U)(dr + half) < (U)(2 * half) , "mask coefficient rounded to nearest"); vc_assert(dt < (U)(2 * half), "body rounded down");
    vc_assert((r & ((1u << bw) - 1)) == 0 && r <= 2 * T::n && (t & ((1u << bw) - 1)) == 0 && t < 2 * T::n, "multiple of the output count within 0..2n"); vc_cover("amounts");
}
PROOF(C09_amounts) { vc_contract("rotation amounts"); amounts<lvl0param, lvl1param, 0>(); amounts<lvl0param, lvl1param, 1>(); amounts<lvl0param, lvl1param, 2>(); amounts<lvl0param, lvl2param, 0>(); amounts<lvl0param, lvl2param, 2>(); amounts<lvlhalfparam, lvl1param, 0>(); amounts<lvlhalfparam, lvl2param, 2>(); }

// controlled rotation over the two exact transforms: acc += bk [x] (X^a - 1) acc
#if VC_ENGINE
template <class T> static void xaimoStub(Polynomial<T> &res, const Polynomial<T> &p, const typename T::T a)
{
    vc_assert(a <= 2 * T::n, "rotation exponent within 0..2n");
    vc_uf_begin("XaiMinusOne"); vc_uf_argn(a & (2 * T::n - 1)); vc_uf_argb(&p, T::n, sizeof(typename T::T)); vc_uf_out(&res, T::n, sizeof(typename T::T), 0);
}
template <class T, class G> static void extStubX(TRLWE<T> &res, const TRLWE<T> &c, const G &g)
{
    TRLWE<T> t = c;
    for (uint32_t m = 0; m <= T::k; m++) { vc_uf_begin("ExtProd"); vc_uf_argn(m); vc_uf_argn((uint64_t)&g); for (uint32_t j = 0; j <= T::k; j++) vc_uf_argb(&t[j], T::n, sizeof(typename T::T)); vc_uf_out(&res[m], T::n, sizeof(typename T::T), 0); }
}
#endif
template <class T, class G> static void xaistep()
{
    vc_contract("CMUXNTTwithPolynomialMulByXaiMinusOne");
    constexpr bool ntt = std::is_same_v<G, TRGSWNTT<T>>;
#if VC_ENGINE
    { using F = void(Polynomial<T> &, const Polynomial<T> &, const typename T::T); vc_replace(vc::fa<F>(&PolynomialMulByXaiMinusOne<T>), vc::fa<F>(&xaimoStub<T>)); }
    { using F = void(TRLWE<T> &, const TRLWE<T> &, const G &); if constexpr (ntt) vc_replace(vc::fa<F>(&trgswnttExternalProduct<T>), vc::fa<F>(&extStubX<T, G>)); else vc_replace(vc::fa<F>(&trgswrainttExternalProduct<T>), vc::fa<F>(&extStubX<T, G>)); }
#endif
    vc::Box<TRLWE<T>> acc, want, t; vc::fresh(*acc, "acc"); vc::Box<G> g; if (!VC_ENGINE) for (auto &r : *g) for (auto &p : r) vc::fresh_range(p, "bk", 0, ntt ? (int64_t)(cuHEpp::P - 1) : (int64_t)raintt::P - 1);
    uint32_t a = vc_fresh_u64_range("a", 0, 2 * T::n); *want = *acc;
    for (uint32_t m = 0; m <= T::k; m++) PolynomialMulByXaiMinusOne<T>((*t)[m], (*acc)[m], a);
    if constexpr (ntt) trgswnttExternalProduct<T>(*t, *t, *g); else trgswrainttExternalProduct<T>(*t, *t, *g);
    for (uint32_t m = 0; m <= T::k; m++) for (uint32_t i = 0; i < T::n; i++) (*want)[m][i] += (*t)[m][i];
    vc_frame_begin(); vc::frame(*acc); if constexpr (ntt) CMUXNTTwithPolynomialMulByXaiMinusOne<T>(*acc, *g, a); else CMUXRAINTTwithPolynomialMulByXaiMinusOne<T>(*acc, *g, a); vc_frame_end();
    vc::eq(*acc, *want, "acc' = acc + bk [x] (X^a - 1) acc"); vc_cover("xaistep");
}
PROOF(C09_stepntt_lvl1) { xaistep<lvl1param, TRGSWNTT<lvl1param>>(); }
PROOF(C09_stepntt_lvl2) { xaistep<lvl2param, TRGSWNTT<lvl2param>>(); }
PROOF(C09_stepraintt_lvl1) { xaistep<lvl1param, TRGSWRAINTT<lvl1param>>(); }

// scalar bootstrapping: coefficient i of the rotated accumulator
template <class P> static typename P::T coefAt(const TRLWE<P> &c, uint32_t comp, uint32_t idx, uint32_t j) { return j <= idx ? c[comp][idx - j] : (typename P::T)(-c[comp][P::n + idx - j]); }
template <class P, uint32_t num_out, int kind>
static void boot()
{
    using D = typename P::domainP; using T = typename P::targetP; using BK = std::conditional_t<kind == 0 || kind == 3, BootstrappingKeyFFT<P>, std::conditional_t<kind == 1, BootstrappingKeyNTT<P>, BootstrappingKeyRAINTT<P>>>;
    vc_contract(kind == 3 ? "GateBootstrappingManyLUT" : kind == 0 ? "GateBootstrappingTLWE2TLWEFFT" : kind == 1 ? "GateBootstrappingTLWE2TLWENTT" : "GateBootstrappingTLWE2TLWERAINTT"); vc::replaceBlind<P, num_out, BK>();
    vc::Box<TLWE<D>> c; vc::fresh(*c, "c"); vc::Box<Polynomial<T>> tv; vc::fresh(*tv, "testvector"); vc::Box<BK> bk; vc::freshBK<P>(*bk); vc::Box<TRLWE<T>> acc;
    vc::Box<std::array<TLWE<T>, num_out>> res, want; vc::fresh(*res, "res0");
    BlindRotate<P, num_out>(*acc, *c, *bk, *tv);
    for (uint32_t o = 0; o < num_out; o++) { for (uint32_t k = 0; k < T::k; k++) for (uint32_t j = 0; j < T::n; j++) (*want)[o][k * T::n + j] = coefAt<T>(*acc, k, o, j); (*want)[o][T::k * T::n] = (*acc)[T::k][o]; }
    vc_frame_begin(); vc::frame(*res);
    if constexpr (kind == 3) GateBootstrappingManyLUT<P, num_out>(*res, *c, *bk, *tv); else if constexpr (kind == 0) GateBootstrappingTLWE2TLWEFFT<P>((*res)[0], *c, *bk, *tv); else if constexpr (kind == 1) GateBootstrappingTLWE2TLWENTT<P>((*res)[0], *c, *bk, *tv); else GateBootstrappingTLWE2TLWERAINTT<P>((*res)[0], *c, *bk, *tv);
    vc_frame_end(); for (uint32_t o = 0; o < num_out; o++) { vc_ctx(o); vc::eq((*res)[o], (*want)[o], "output o is coefficient o of the blindly rotated test polynomial"); } vc_cover("boot");
}
PROOF(C09_boot_lvl01) { boot<lvl01param, 1, 0>(); }
PROOF(C09_boot_lvl02) { boot<lvl02param, 1, 0>(); }
PROOF(C09_boot_lvlh1) { boot<lvlh1param, 1, 0>(); }
PROOF(C09_boot_lvlh2__t) { boot<lvlh2param, 1, 0>(); }
PROOF(C09_bootntt_lvl01) { boot<lvl01param, 1, 1>(); }
PROOF(C09_bootntt_lvl02) { boot<lvl02param, 1, 1>(); }
PROOF(C09_bootraintt_lvl01) { boot<lvl01param, 1, 2>(); }
PROOF(C09_manylut_lvl02_3) { boot<lvl02param, lvl1param::l, 3>(); }
PROOF(C09_manylut_lvl02_4) { boot<lvl02param, lvl2param::l, 3>(); }
PROOF(C09_manylut_lvl01_2) { boot<lvl01param, 2, 3>(); }

// bootstrapping with key switching, in either order, with a constant test polynomial
template <class bkP, class iksP, bool ntt>
static void gbBrIks()
{
    using D = typename bkP::domainP; using T = typename bkP::targetP; constexpr auto mu = T::μ; vc_contract(ntt ? "GateBootstrappingNTT (bootstrap, switch)" : "GateBootstrapping (bootstrap, switch)");
    static vc::Keys ks; if constexpr (ntt) ks.bkntt<bkP>(); else ks.bk<bkP>(); ks.iks<iksP>(); vc::replaceGB<bkP>(); vc::replaceGBNTT<bkP>(); vc::replaceIKS<iksP>();
    vc::Box<TLWE<D>> c, res, want; vc::fresh(*c, "c"); vc::fresh(*res, "res0"); vc::Box<TLWE<T>> mid; vc::Box<Polynomial<T>> tv; vc::constPoly<T>(*tv, mu);
    if constexpr (ntt) GateBootstrappingTLWE2TLWENTT<bkP>(*mid, *c, ks.keyntt<bkP>(), *tv); else GateBootstrappingTLWE2TLWEFFT<bkP>(*mid, *c, ks.bkfft<bkP>(), *tv);
    IdentityKeySwitch<iksP>(*want, *mid, ks.iksk<iksP>());
    vc_frame_begin(); vc::frame(*res); if constexpr (ntt) GateBootstrappingNTT<bkP, mu, iksP>(*res, *c, ks.ek); else GateBootstrapping<bkP, mu, iksP>(*res, *c, ks.ek); vc_frame_end();
    vc::eq(*res, *want, "switch(bootstrap(c)) with the evaluation key's own keys"); vc_cover("gb");
    vc_frame_begin(); vc::frame(*c); if constexpr (ntt) GateBootstrappingNTT<bkP, mu, iksP>(*c, *c, ks.ek); else GateBootstrapping<bkP, mu, iksP>(*c, *c, ks.ek); vc_frame_end();
    vc::eq(*c, *want, "result stored over the input");
}
template <class iksP, class bkP, bool ntt>
static void gbIksBr()
{
    using D = typename iksP::domainP; using T = typename bkP::targetP; constexpr auto mu = T::μ; vc_contract(ntt ? "GateBootstrappingNTT (switch, bootstrap)" : "GateBootstrapping (switch, bootstrap)");
    static vc::Keys ks; if constexpr (ntt) ks.bkntt<bkP>(); else ks.bk<bkP>(); ks.iks<iksP>(); vc::replaceGB<bkP>(); vc::replaceGBNTT<bkP>(); vc::replaceIKS<iksP>();
    vc::Box<TLWE<D>> c, res, want; vc::fresh(*c, "c"); vc::fresh(*res, "res0"); vc::Box<TLWE<typename iksP::targetP>> mid; vc::Box<Polynomial<T>> tv; vc::constPoly<T>(*tv, mu);
    IdentityKeySwitch<iksP>(*mid, *c, ks.iksk<iksP>());
    if constexpr (ntt) GateBootstrappingTLWE2TLWENTT<bkP>(*want, *mid, ks.keyntt<bkP>(), *tv); else GateBootstrappingTLWE2TLWEFFT<bkP>(*want, *mid, ks.bkfft<bkP>(), *tv);
    vc_frame_begin(); vc::frame(*res); if constexpr (ntt) GateBootstrappingNTT<iksP, bkP, mu>(*res, *c, ks.ek); else GateBootstrapping<iksP, bkP, mu>(*res, *c, ks.ek); vc_frame_end();
    vc::eq(*res, *want, "bootstrap(switch(c)) with the evaluation key's own keys"); vc_cover("gb");
    vc_frame_begin(); vc::frame(*c); if constexpr (ntt) GateBootstrappingNTT<iksP, bkP, mu>(*c, *c, ks.ek); else GateBootstrapping<iksP, bkP, mu>(*c, *c, ks.ek); vc_frame_end();
    vc::eq(*c, *want, "result stored over the input");
}
PROOF(C09_gb_01_10) { gbBrIks<lvl01param, lvl10param, false>(); }
PROOF(C09_gb_02_20) { gbBrIks<lvl02param, lvl20param, false>(); }
PROOF(C09_gb_h1_1h) { gbBrIks<lvlh1param, lvl1hparam, false>(); }
PROOF(C09_gb_10_01) { gbIksBr<lvl10param, lvl01param, false>(); }
PROOF(C09_gb_20_02) { gbIksBr<lvl20param, lvl02param, false>(); }
PROOF(C09_gb_1h_h1) { gbIksBr<lvl1hparam, lvlh1param, false>(); }
PROOF(C09_gbntt_01_10) { gbBrIks<lvl01param, lvl10param, true>(); }
PROOF(C09_gbntt_10_01) { gbIksBr<lvl10param, lvl01param, true>(); }
