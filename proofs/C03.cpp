// C03: multiplication by monomials and Galois automorphisms in the negacyclic
// ring Z_q[X]/(X^n+1), for every polynomial and every exponent.
#include "common.h"

template <class P, bool minusOne>
static void mulByXai()
{
    vc_contract(minusOne ? "PolynomialMulByXaiMinusOne" : "PolynomialMulByXai");
    vc::Box<Polynomial<P>> poly, res, want;
    vc::fresh(*poly, "poly");
    for (uint32_t a = 0; a <= 2 * P::n; a++) {
        vc_ctx(a);
        vc::fresh(*res, "res0");
        vc_frame_begin(); vc::frame(*res);
        if constexpr (minusOne) PolynomialMulByXaiMinusOne<P>(*res, *poly, (typename P::T)a);
        else PolynomialMulByXai<P>(*res, *poly, (typename P::T)a);
        vc_frame_end();
        for (uint32_t i = 0; i < P::n; i++) (*want)[i] = coefXai<P>(*poly, a, i) - (minusOne ? (*poly)[i] : 0);
        vc::eq(*res, *want, minusOne ? "res = poly * (X^a - 1) in Z_q[X]/(X^n+1)" : "res = poly * X^a in Z_q[X]/(X^n+1)");
    }
    vc_cover("mulByXai");
}
PROOF(C03_xai_lvl1) { mulByXai<lvl1param, false>(); }
PROOF(C03_xai_lvl2) { mulByXai<lvl2param, false>(); }
PROOF(C03_xaimo_lvl1) { mulByXai<lvl1param, true>(); }
PROOF(C03_xaimo_lvl2) { mulByXai<lvl2param, true>(); }

// tau_d: X -> X^d for every odd d in [1, 2n): a ring automorphism permutes the
// monomials up to sign; poly coefficient i goes to i*d mod 2n.
template <class P, uint32_t lo, uint32_t hi>
static void automorphism()
{
    vc_contract("Automorphism");
    vc::Box<Polynomial<P>> poly, res, want; vc::fresh(*poly, "poly");
    for (uint32_t d = lo; d < hi; d += 2) {
        vc_ctx(d); vc::fresh(*res, "res0");
        vc_frame_begin(); vc::frame(*res);
        Automorphism<P>(*res, *poly, d);
        vc_frame_end();
        // d is a unit mod 2n; e = d^-1 mod 2n
        uint64_t e = 1; for (uint32_t b = 0; b < 6; b++) e = e * (2 - (uint64_t)d * e); e &= 2 * P::n - 1;
        for (uint32_t i = 0; i < P::n; i++) {
            // exactly one source j with j*d = i or i+n (mod 2n), j in [0,n)
            uint32_t j = (uint32_t)(i * e) & (2 * P::n - 1);
            (*want)[i] = j < P::n ? (*poly)[j] : (typename P::T)(-(*poly)[j - P::n]);
        }
        vc::eq(*res, *want, "res = poly(X^d) in Z_q[X]/(X^n+1)");
    }
    vc_cover("automorphism");
}
PROOF(C03_auto_lvl1_a) { automorphism<lvl1param, 1, 513>(); }
PROOF(C03_auto_lvl1_b) { automorphism<lvl1param, 513, 1025>(); }
PROOF(C03_auto_lvl1_c) { automorphism<lvl1param, 1025, 1537>(); }
PROOF(C03_auto_lvl1_d) { automorphism<lvl1param, 1537, 2049>(); }
