// C10: gates.  Bootstrapping and key switching are used through their contracts
// (C07, C09); the table below is checked against the truth tables themselves.
#include "boot.h"
struct Gate { const char *name; int a, b, off; bool tt[4]; }; // phase a*x + b*y + off*mu; tt[2x+y]
enum { NAND, NOR, XNOR, AND, OR, XOR, ANDNY, ANDYN, ORNY, ORYN };
static constexpr Gate gates[10] = {
    {"HomNAND", -1, -1, 1, {1, 1, 1, 0}}, {"HomNOR", -1, -1, -1, {1, 0, 0, 0}}, {"HomXNOR", -2, -2, -2, {1, 0, 0, 1}}, {"HomAND", 1, 1, -1, {0, 0, 0, 1}}, {"HomOR", 1, 1, 1, {0, 1, 1, 1}},
    {"HomXOR", 2, 2, 2, {0, 1, 1, 0}}, {"HomANDNY", -1, 1, -1, {0, 1, 0, 0}}, {"HomANDYN", 1, -1, -1, {0, 0, 1, 0}}, {"HomORNY", -1, 1, 1, {1, 1, 0, 1}}, {"HomORYN", 1, -1, 1, {1, 0, 1, 1}}};
// the combination of two encodings (+-mu with noise) lies in the half torus that
// encodes the gate's output as long as the combined noise is below max(|a|,|b|) mu
template <class P> static void truth()
{
    using U = typename P::T; using S = std::make_signed_t<U>;
    for (int g = 0; g < 10; g++) for (int v = 0; v < 4; v++) {
        vc_ctx(g * 4 + v); U ex, ey; vc_fresh(&ex, 1, sizeof ex, "noise x"); vc_fresh(&ey, 1, sizeof ey, "noise y");
        int m = gates[g].a < 0 ? -gates[g].a : gates[g].a; U e = (U)gates[g].a * ex + (U)gates[g].b * ey, bound = (U)m * P::μ;
        U x = ((v & 2) ? P::μ : (U)-P::μ) + ex, y = ((v & 1) ? P::μ : (U)-P::μ) + ey; U ph = (U)gates[g].a * x + (U)gates[g].b * y + (U)gates[g].off * (U)(m == 2 ? 2 * P::μ : P::μ) / (U)1;
        if (m == 2) ph = (U)gates[g].a * x + (U)gates[g].b * y + (U)gates[g].off * P::μ;
        bool small = (U)(e + bound - 1) < (U)(2 * bound - 1); // -bound < e < bound
        vc_assert(!small || ((S)ph > 0) == gates[g].tt[v], "phase of the combination is positive exactly when the gate's output is 1"); vc_assert(!small || ph != 0, "never on the decision boundary");
    }
    vc_cover("truth");
}
PROOF(C10_truth) { vc_contract("gate truth tables"); truth<lvl0param>(); truth<lvlhalfparam>(); truth<lvl1param>(); truth<lvl2param>(); }

#if VC_ENGINE
template <class X, class Y> static void gbAny(TLWE<X> &res, const TLWE<Y> &c, const EvalKey &ek) { vc_uf_begin("GateBootstrapping"); vc_uf_argn((uint64_t)&ek); vc_uf_argb(&c, Y::k * Y::n + 1, sizeof(typename Y::T)); vc_uf_out(&res, X::k * X::n + 1, sizeof(typename X::T), 0); }
template <class bk, class iks> static void replaceBrIks() { using F = void(TLWE<typename bk::domainP> &, const TLWE<typename bk::domainP> &, const EvalKey &); vc_replace(vc::fa<F>(&GateBootstrapping<bk, bk::targetP::μ, iks>), vc::fa<F>(&gbAny<typename bk::domainP, typename bk::domainP>)); }
template <class iks, class bk> static void replaceIksBr() { using F = void(TLWE<typename iks::domainP> &, const TLWE<typename iks::domainP> &, const EvalKey &); vc_replace(vc::fa<F>(&GateBootstrapping<iks, bk, bk::targetP::μ>), vc::fa<F>(&gbAny<typename iks::domainP, typename iks::domainP>)); }
#else
template <class bk, class iks> static void replaceBrIks() {}
template <class iks, class bk> static void replaceIksBr() {}
#endif
#define CALLS(X) X(NAND) X(NOR) X(XNOR) X(AND) X(OR) X(XOR) X(ANDNY) X(ANDYN) X(ORNY) X(ORYN)
template <bool brFirst, class bk, class iks, class TL> static void gate(int g, TL &res, const TL &x, const TL &y, const EvalKey &ek)
{
    switch (g) {
#define X(n) case n: if constexpr (brFirst) Hom##n<bk, bk::targetP::μ, iks>(res, x, y, ek); else Hom##n<iks, bk, bk::targetP::μ>(res, x, y, ek); break;
        CALLS(X)
#undef X
    }
}
// shared: 0 distinct operands, 1 result over the first, 2 result over the second, 3 same operand twice
template <bool brFirst, class bk, class iks, int shared> static void gateP()
{
    using D = std::conditional_t<brFirst, typename bk::domainP, typename iks::domainP>; using U = typename D::T;
    if constexpr (brFirst) replaceBrIks<bk, iks>(); else replaceIksBr<iks, bk>();
    static vc::Keys ks; if (!VC_ENGINE) { ks.bk<bk>(); ks.iks<iks>(); }
    vc::Box<TLWE<D>> x, y, res, comb, want;
    for (int g = 0; g < 10; g++) {
        vc_ctx(g); vc_contract(gates[g].name); vc::fresh(*x, "x"); vc::fresh(*y, "y"); vc::fresh(*res, "res0"); const auto &yy = shared == 3 ? *x : *y;
        for (uint32_t i = 0; i <= D::k * D::n; i++) (*comb)[i] = (U)gates[g].a * (*x)[i] + (U)gates[g].b * yy[i];
        (*comb)[D::k * D::n] += (U)gates[g].off * D::μ;
        if constexpr (brFirst) GateBootstrapping<bk, bk::targetP::μ, iks>(*want, *comb, ks.ek); else GateBootstrapping<iks, bk, bk::targetP::μ>(*want, *comb, ks.ek);
        auto &out = shared == 1 ? *x : shared == 2 ? *y : *res;
        vc_frame_begin(); vc::frame(out); gate<brFirst, bk, iks>(g, out, *x, yy, ks.ek); vc_frame_end();
        vc::eq(out, *want, "result = bootstrapped combination of the gate's table"); vc_cover("gate");
    }
}
PROOF(C10_gates_01_10) { gateP<true, lvl01param, lvl10param, 0>(); }
PROOF(C10_gates_01_10_over_first) { gateP<true, lvl01param, lvl10param, 1>(); }
PROOF(C10_gates_01_10_over_second) { gateP<true, lvl01param, lvl10param, 2>(); }
PROOF(C10_gates_01_10_same) { gateP<true, lvl01param, lvl10param, 3>(); }
PROOF(C10_gates_10_01) { gateP<false, lvl01param, lvl10param, 0>(); }
PROOF(C10_gates_10_01_over_first) { gateP<false, lvl01param, lvl10param, 1>(); }
PROOF(C10_gates_10_01_over_second) { gateP<false, lvl01param, lvl10param, 2>(); }
PROOF(C10_gates_10_01_same) { gateP<false, lvl01param, lvl10param, 3>(); }
PROOF(C10_gates_02_20) { gateP<true, lvl02param, lvl20param, 0>(); }
PROOF(C10_gates_20_02) { gateP<false, lvl02param, lvl20param, 0>(); }

template <class P> static void unary()
{
    using U = typename P::T; vc_contract("HomNOT"); vc_contract("HomCOPY"); vc_contract("HomCONSTANTONE"); vc_contract("HomCONSTANTZERO");
    vc::Box<TLWE<P>> x, r, w; vc::fresh(*x, "x"); vc::fresh(*r, "r0"); constexpr uint32_t N = P::k * P::n;
    for (uint32_t i = 0; i <= N; i++) (*w)[i] = -(*x)[i];
    vc_frame_begin(); vc::frame(*r); HomNOT<P>(*r, *x); vc_frame_end(); vc::eq(*r, *w, "NOT negates the ciphertext");
    vc_frame_begin(); vc::frame(*r); HomCOPY<P>(*r, *x); vc_frame_end(); vc::eq(*r, *x, "COPY copies the ciphertext");
    vc::fresh(*r, "r1"); for (uint32_t i = 0; i <= N; i++) (*w)[i] = 0; (*w)[N] = P::μ;
    vc_frame_begin(); vc::frame(*r); HomCONSTANTONE<P>(*r); vc_frame_end(); vc::eq(*r, *w, "constant one is the noiseless encoding of 1");
    vc::fresh(*r, "r2"); (*w)[N] = (U)-P::μ; vc_frame_begin(); vc::frame(*r); HomCONSTANTZERO<P>(*r); vc_frame_end(); vc::eq(*r, *w, "constant zero is the noiseless encoding of 0");
    for (uint32_t i = 0; i <= N; i++) (*w)[i] = -(*x)[i];
    vc_frame_begin(); vc::frame(*x); HomNOT<P>(*x, *x); vc_frame_end(); vc::eq(*x, *w, "NOT in place"); vc_cover("unary");
}
PROOF(C10_unary_lvl0) { unary<lvl0param>(); }
PROOF(C10_unary_lvlhalf) { unary<lvlhalfparam>(); }
PROOF(C10_unary_lvl1) { unary<lvl1param>(); }
PROOF(C10_unary_lvl2) { unary<lvl2param>(); }

// multiplexers: AND(cs, c1) + AND(not cs, c0) + mu, with both ANDs bootstrapped to +-mu;
// the two are never both +mu
template <class P> static void muxtruth()
{
    using U = typename P::T; using S = std::make_signed_t<U>;
    for (int v = 0; v < 8; v++) {
        vc_ctx(v); U es, e1, e0; vc_fresh(&es, 1, sizeof es, "noise s"); vc_fresh(&e1, 1, sizeof e1, "noise 1"); vc_fresh(&e0, 1, sizeof e0, "noise 0");
        auto enc = [](bool b) { return b ? P::μ : (U)-P::μ; }; bool s = v & 4, b1 = v & 2, b0 = v & 1;
        U x = enc(s) + es + enc(b1) + e1 - P::μ, y = -(enc(s) + es) + enc(b0) + e0 - P::μ;
        bool small = (U)(es + e1 + P::μ - 1) < (U)(2 * P::μ - 1) && (U)(e0 - es + P::μ - 1) < (U)(2 * P::μ - 1);
        vc_assert(!small || ((S)x > 0) == (s && b1), "first product is cs and c1"); vc_assert(!small || ((S)y > 0) == (!s && b0), "second product is (not cs) and c0");
        U out = ((s && b1) ? P::μ : (U)-P::μ) + ((!s && b0) ? P::μ : (U)-P::μ) + P::μ; vc_assert(out == enc(s ? b1 : b0), "their sum plus mu encodes the selected input");
    }
    vc_cover("muxtruth");
}
PROOF(C10_muxtruth) { vc_contract("multiplexer truth table"); muxtruth<lvl0param>(); muxtruth<lvlhalfparam>(); muxtruth<lvl1param>(); muxtruth<lvl2param>(); }
template <class D> static void ands(TLWE<D> &a1, TLWE<D> &a0, const TLWE<D> &cs, const TLWE<D> &c1, const TLWE<D> &c0)
{
    for (uint32_t i = 0; i <= D::k * D::n; i++) { a1[i] = cs[i] + c1[i]; a0[i] = c0[i] - cs[i]; }
    a1[D::k * D::n] -= D::μ; a0[D::k * D::n] -= D::μ;
}
template <class P, bool neg, int over> static void mux()
{
    vc_contract(neg ? "HomNMUX" : "HomMUX"); vc::replaceGB<lvl01param>(); vc::replaceIKS<lvl10param>(); static vc::Keys ks; ks.bk<lvl01param>(); ks.iks<lvl10param>();
    vc::Box<TLWE<P>> cs, c1, c0, res, want, a1, a0; vc::fresh(*cs, "cs"); vc::fresh(*c1, "c1"); vc::fresh(*c0, "c0"); vc::fresh(*res, "res0");
    vc::Box<Polynomial<lvl1param>> tv; vc::constPoly<lvl1param>(*tv, lvl1param::μ); ands<P>(*a1, *a0, *cs, *c1, *c0);
    vc::Box<TLWE<lvl0param>> l1, l0; vc::Box<TLWE<lvl1param>> b1, b0; constexpr uint32_t N = P::k * P::n;
    if constexpr (std::is_same_v<P, lvl1param>) {
        IdentityKeySwitch<lvl10param>(*l1, *a1, ks.iksk<lvl10param>()); IdentityKeySwitch<lvl10param>(*l0, *a0, ks.iksk<lvl10param>());
        GateBootstrappingTLWE2TLWEFFT<lvl01param>(*b1, *l1, ks.bkfft<lvl01param>(), *tv); GateBootstrappingTLWE2TLWEFFT<lvl01param>(*b0, *l0, ks.bkfft<lvl01param>(), *tv);
        for (uint32_t i = 0; i <= N; i++) (*want)[i] = (*b1)[i] + (*b0)[i];
    }
    else {
        GateBootstrappingTLWE2TLWEFFT<lvl01param>(*b1, *a1, ks.bkfft<lvl01param>(), *tv); GateBootstrappingTLWE2TLWEFFT<lvl01param>(*b0, *a0, ks.bkfft<lvl01param>(), *tv);
        for (uint32_t i = 0; i <= lvl1param::k * lvl1param::n; i++) (*b1)[i] += (*b0)[i];
        IdentityKeySwitch<lvl10param>(*want, *b1, ks.iksk<lvl10param>());
    }
    (*want)[N] += P::μ; if (neg) for (uint32_t i = 0; i <= N; i++) (*want)[i] = -(*want)[i];
    auto &out = over == 1 ? *cs : over == 2 ? *c1 : over == 3 ? *c0 : *res;
    vc_frame_begin(); vc::frame(out); if constexpr (neg) HomNMUX<P>(out, *cs, *c1, *c0, ks.ek); else HomMUX<P>(out, *cs, *c1, *c0, ks.ek); vc_frame_end();
    vc::eq(out, *want, neg ? "negated multiplexer" : "boot(cs + c1 - mu) + boot(c0 - cs - mu) + mu"); vc_cover("mux");
}
PROOF(C10_mux_lvl1) { mux<lvl1param, false, 0>(); }
PROOF(C10_mux_lvl0) { mux<lvl0param, false, 0>(); }
PROOF(C10_mux_over_cs_lvl1) { mux<lvl1param, false, 1>(); }
PROOF(C10_mux_over_c1_lvl1) { mux<lvl1param, false, 2>(); }
PROOF(C10_mux_over_c0_lvl1) { mux<lvl1param, false, 3>(); }
PROOF(C10_mux_over_cs_lvl0) { mux<lvl0param, false, 1>(); }
PROOF(C10_mux_over_c1_lvl0) { mux<lvl0param, false, 2>(); }
PROOF(C10_mux_over_c0_lvl0) { mux<lvl0param, false, 3>(); }
PROOF(C10_nmux_lvl1) { mux<lvl1param, true, 0>(); }
PROOF(C10_nmux_lvl0) { mux<lvl0param, true, 0>(); }

// sum of the two blindly rotated products, recentred in coefficient 0 of the body
template <class br> static void ringsum(TRLWE<typename br::targetP> &want, const TLWE<typename br::domainP> &a1, const TLWE<typename br::domainP> &a0, vc::Keys &ks)
{
    using T = typename br::targetP; vc::Box<TRLWE<T>> t; vc::Box<Polynomial<T>> tv; vc::constPoly<T>(*tv, T::μ);
    BlindRotate<br>(want, a1, ks.bkfft<br>(), *tv); BlindRotate<br>(*t, a0, ks.bkfft<br>(), *tv);
    for (uint32_t m = 0; m <= T::k; m++) for (uint32_t i = 0; i < T::n; i++) want[m][i] += (*t)[m][i];
    want[T::k][0] += T::μ;
}
template <class br, bool woIKS> static void muxring()
{
    using D = typename br::domainP; using T = typename br::targetP; vc_contract(woIKS ? "HomMUXwoIKSandSE" : "HomMUXwoSE"); vc::replaceBlind<br, 1>(); static vc::Keys ks; ks.bk<br>();
    vc::Box<TLWE<D>> cs, c1, c0, a1, a0; vc::fresh(*cs, "cs"); vc::fresh(*c1, "c1"); vc::fresh(*c0, "c0"); vc::Box<TRLWE<T>> res, want; vc::fresh(*res, "res0");
    ands<D>(*a1, *a0, *cs, *c1, *c0); ringsum<br>(*want, *a1, *a0, ks);
    vc_frame_begin(); vc::frame(*res); if constexpr (woIKS) HomMUXwoIKSandSE<br>(*res, *cs, *c1, *c0, ks.ek); else HomMUXwoSE<br>(*res, *cs, *c1, *c0, ks.ek); vc_frame_end();
    vc::eq(*res, *want, "rotate(cs + c1 - mu) + rotate(c0 - cs - mu) + mu"); vc_cover("muxring");
}
template <class iks, class br> static void muxiks()
{
    using D = typename iks::domainP; using T = typename br::targetP; vc_contract("HomMUXwoSE (switch first)"); vc::replaceBlind<br, 1>(); vc::replaceIKS<iks>(); static vc::Keys ks; ks.bk<br>(); ks.iks<iks>();
    vc::Box<TLWE<D>> cs, c1, c0, a1, a0; vc::fresh(*cs, "cs"); vc::fresh(*c1, "c1"); vc::fresh(*c0, "c0"); vc::Box<TLWE<typename iks::targetP>> s1, s0; vc::Box<TRLWE<T>> res, want; vc::fresh(*res, "res0");
    ands<D>(*a1, *a0, *cs, *c1, *c0); IdentityKeySwitch<iks>(*s1, *a1, ks.iksk<iks>()); IdentityKeySwitch<iks>(*s0, *a0, ks.iksk<iks>()); ringsum<br>(*want, *s1, *s0, ks);
    vc_frame_begin(); vc::frame(*res); HomMUXwoSE<iks, br>(*res, *cs, *c1, *c0, ks.ek); vc_frame_end();
    vc::eq(*res, *want, "rotate(switch(cs + c1 - mu)) + rotate(switch(c0 - cs - mu)) + mu"); vc_cover("muxiks");
}
PROOF(C10_muxwoiksse_lvl01) { muxring<lvl01param, true>(); }
PROOF(C10_muxwoiksse_lvl02) { muxring<lvl02param, true>(); }
PROOF(C10_muxwose_lvl01) { muxring<lvl01param, false>(); }
PROOF(C10_muxwose_lvl02) { muxring<lvl02param, false>(); }
PROOF(C10_muxwose_10_01) { muxiks<lvl10param, lvl01param>(); }
PROOF(C10_muxwose_10_02) { muxiks<lvl10param, lvl02param>(); }
PROOF(C10_muxwose_20_01) { muxiks<lvl20param, lvl01param>(); }
PROOF(C10_muxwose_20_02) { muxiks<lvl20param, lvl02param>(); }
template <int over> static void extmux()
{
    using P = lvl1param; using D = lvl0param; vc_contract("ExtractSwitchAndHomMUX"); vc::replaceBlind<lvl01param, 1>(); vc::replaceIKS<lvl10param>(); static vc::Keys ks; ks.bk<lvl01param>(); ks.iks<lvl10param>();
    vc::Box<std::array<TRLWE<P>, 3>> in; vc::fresh(*in, "in"); vc::Box<TRLWE<P>> res, want; vc::fresh(*res, "res0"); vc::Box<TLWE<P>> e; vc::Box<std::array<TLWE<D>, 3>> s; vc::Box<TLWE<D>> a1, a0;
    for (int v = 0; v < 3; v++) { (*e)[0] = (*in)[v][0][0]; for (uint32_t i = 1; i < P::n; i++) (*e)[i] = -(*in)[v][0][P::n - i]; (*e)[P::n] = (*in)[v][1][0]; IdentityKeySwitch<lvl10param>((*s)[v], *e, ks.iksk<lvl10param>()); }
    ands<D>(*a1, *a0, (*s)[0], (*s)[1], (*s)[2]); ringsum<lvl01param>(*want, *a1, *a0, ks);
    auto &out = over < 3 ? (*in)[over] : *res;
    vc_frame_begin(); vc::frame(out); ExtractSwitchAndHomMUX(out, (*in)[0], (*in)[1], (*in)[2], ks.ek); vc_frame_end();
    vc::eq(out, *want, "multiplexer over coefficient 0 of each input, result encoded as +-mu"); vc_cover("extmux");
}
PROOF(C10_extmux) { extmux<3>(); }
PROOF(C10_extmux_over_c0) { extmux<2>(); }
