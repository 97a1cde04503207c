// C04: gadget decomposition of ring elements.
#include "common.h"

// digits are balanced, and recompose to the input up to half a unit of the last place
template <class P>
static void dec()
{
    using T = typename P::T; using S = std::make_signed_t<T>;
    vc_contract("Decomposition");
    constexpr uint32_t W = std::numeric_limits<T>::digits; constexpr T Bg = (T)1 << P::Bgbit, ulp = (T)1 << (W - P::l * P::Bgbit);
    vc::Box<Polynomial<P>> poly; vc::fresh(*poly, "poly"); T randbits; vc_fresh(&randbits, 1, sizeof randbits, "randbits");
    vc::Box<DecomposedPolynomial<P>> d; vc::fresh(*d, "d0");
    vc_frame_begin(); vc::frame(*d); Decomposition<P>(*d, *poly, randbits); vc_frame_end();
    for (uint32_t i = 0; i < P::n; i++) {
        T r = 0; bool in = true;
        for (uint32_t l = 0; l < P::l; l++) {
            S x = (S)(*d)[l][i]; in = in && x >= -(S)(Bg / 2) && x <= (S)(Bg / 2);
            r += (*d)[l][i] << (W - (l + 1) * P::Bgbit);
        }
        vc_assert(in, "every digit lies in [-Bg/2, Bg/2]");
        S e = (S)(T)(r - (*poly)[i]);
        vc_assert(e >= -(S)(ulp / 2) && e <= (S)(ulp / 2), "sum of digit_l * q/Bg^l = coefficient up to half a unit of the last digit");
    }
    vc_cover("dec");
}
PROOF(C04_dec_lvl1) { dec<lvl1param>(); }
PROOF(C04_dec_lvl2) { dec<lvl2param>(); }
PROOF(C04_dec_lvl3) { dec<lvl3param>(); }

// transformed decompositions are the transform of every digit, in order
template <class P>
static void decntt()
{
    vc_contract("DecompositionNTT"); vc::replaceNTT<P>(); vc::replaceDec<P>();
    vc::Box<Polynomial<P>> poly; vc::fresh(*poly, "poly");
    vc::Box<DecomposedPolynomialNTT<P>> d, w; vc::fresh(*d, "d0"); vc::Box<DecomposedPolynomial<P>> q;
    vc_frame_begin(); vc::frame(*d); DecompositionNTT<P>(*d, *poly); vc_frame_end();
    Decomposition<P>(*q, *poly); for (uint32_t l = 0; l < P::l; l++) TwistINTT<P>((*w)[l], (*q)[l]);
    vc::eq(*d, *w, "digit l is transformed into slot l"); vc_cover("decntt");
}
PROOF(C04_ntt_lvl1) { decntt<lvl1param>(); }
PROOF(C04_ntt_lvl2) { decntt<lvl2param>(); }

// gadget elements: h_i = q / Bg^(i+1)
template <class P>
static void gadget()
{
    vc_contract("hgen"); vc_contract("offsetgen"); using T = typename P::T; auto h = hgen<P>(); T off = 0;
    for (uint32_t i = 0; i < P::l; i++) {
        T want = (T)1 << (std::numeric_limits<T>::digits - (i + 1) * P::Bgbit);
        vc_assert(h[i] == want, "h_i = q / Bg^(i+1)"); off += (T)(((T)1 << P::Bgbit) / 2) * want;
    }
    vc_assert(offsetgen<P>() == off, "offset = sum Bg/2 * q / Bg^i"); vc_cover("gadget");
}
PROOF(C04_gadget_lvl1) { gadget<lvl1param>(); }
PROOF(C04_gadget_lvl2) { gadget<lvl2param>(); }
PROOF(C04_gadget_lvl3) { gadget<lvl3param>(); }
