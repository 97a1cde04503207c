// C12: encrypted memories.  Encrypted selection and the external product are used through the
// plaintext reading of their contracts (C05, C06): with a gadget encryption of bit s, CMUX(c1, c0)
// carries c1 if s and c0 otherwise, and the external product of c carries c if s and 0 otherwise.
// Every address and every written index of the stated widths is one case; memory contents are symbolic.
#include "common.h"
#include <cmuxmem.hpp>

template <class P, uint32_t N> struct Bits { // N selectors and the bits they encrypt
    static inline TRGSWFFT<P> *base; static inline bool bit[N];
    static bool of(const TRGSWFFT<P> &g) { size_t i = &g - base; vc_assert(i < N, "the selector is one of the address ciphertexts"); return bit[i]; }
    static void set(uint32_t i, bool b)
    {
        bit[i] = b;
#if !VC_ENGINE
        static TRGSWFFT<P> *val[2]; if (!val[b]) { val[b] = new TRGSWFFT<P>; TRGSW<P> t = {}; auto h = hgen<P>(); if (b) for (uint32_t l = 0; l < P::l; l++) for (uint32_t k = 0; k <= P::k; k++) t[l + k * P::l][k][0] = h[l]; *val[b] = ApplyFFT2trgsw<P>(t); }
        base[i] = *val[b];
#endif
    }
};
#if VC_ENGINE
template <class P, uint32_t N> static void cmuxStub(TRLWE<P> &res, const TRGSWFFT<P> &cs, const TRLWE<P> &c1, const TRLWE<P> &c0) { vc_assert(&res != &c0 || &res == &c1, "selection is not used in place over its second datum"); bool s = Bits<P, N>::of(cs); res = s ? c1 : c0; }
template <class P, uint32_t N> static void extStub(TRLWE<P> &res, const TRLWE<P> &c, const TRGSWFFT<P> &cs) { if (Bits<P, N>::of(cs)) res = c; else res = {}; }
template <class P, uint32_t N> static void use() { { using F = void(TRLWE<P> &, const TRGSWFFT<P> &, const TRLWE<P> &, const TRLWE<P> &); vc_replace(vc::fa<F>(&CMUXFFT<P>), vc::fa<F>(&cmuxStub<P, N>)); } { using F = void(TRLWE<P> &, const TRLWE<P> &, const TRGSWFFT<P> &); vc_replace(vc::fa<F>(&trgswfftExternalProduct<P>), vc::fa<F>(&extStub<P, N>)); } }
#else
template <class P, uint32_t N> static void use() {}
#endif
// natively the gadget rounds away low bits
template <class P> constexpr uint64_t tol() { return VC_ENGINE ? 0 : (uint64_t)64 << (std::numeric_limits<typename P::T>::digits - P::l * P::Bgbit); }

template <class P, uint32_t ab> static void ramux()
{
    vc_contract("RAMUX"); use<P, ab>(); using B = Bits<P, ab>; vc::Box<std::array<TRGSWFFT<P>, ab>> inv; B::base = inv->data();
    vc::Box<std::array<TRLWE<P>, 1 << ab>> data; vc::fresh(*data, "data"); vc::Box<TRLWE<P>> res;
    for (uint32_t a = 0; a < (1u << ab); a++) {
        for (uint32_t i = 0; i < ab; i++) B::set(i, !(a >> i & 1)); vc::fresh(*res, "res0");
        vc_frame_begin(); vc::frame(*res); RAMUX<P, ab>(*res, *inv, *data); vc_frame_end();
        vc::eq_tol(*res, (*data)[a], tol<P>(), "the word at the address is read");
    }
    vc_cover("ramux");
}
PROOF(C12_ramux_2) { ramux<lvl1param, 2>(); }
PROOF(C12_ramux_3) { ramux<lvl1param, 3>(); }
PROOF(C12_ramux_4) { ramux<lvl1param, 4>(); }
PROOF(C12_ramux_5) { ramux<lvl1param, 5>(); }
PROOF(C12_ramux_lvl2) { ramux<lvl2param, 3>(); }

template <class P, uint32_t ab, uint32_t wb> static void uromux()
{
    constexpr uint32_t ub = ab - wb; vc_contract("UROMUX"); use<P, ab>(); using B = Bits<P, ab>; vc::Box<std::array<TRGSWFFT<P>, ab>> inv; B::base = inv->data();
    vc::Box<std::array<TRLWE<P>, 1 << ub>> data; vc::fresh(*data, "data"); vc::Box<TRLWE<P>> res;
    for (uint32_t a = 0; a < (1u << ub); a++) for (uint32_t low = 0; low < 2; low++) {
        for (uint32_t i = 0; i < ab; i++) B::set(i, i < wb ? low : !(a >> (i - wb) & 1)); vc::fresh(*res, "res0");
        vc_frame_begin(); vc::frame(*res); UROMUX<P, ab, wb>(*res, *inv, *data); vc_frame_end();
        vc::eq_tol(*res, (*data)[a], tol<P>(), "the packed word at the upper address bits is read");
    }
    vc_cover("uromux");
}
PROOF(C12_uromux_4_2) { uromux<lvl1param, 4, 2>(); }
PROOF(C12_uromux_7_4) { uromux<lvl1param, 7, 4>(); }
PROOF(C12_uromux_9_5) { uromux<lvl1param, 9, 5>(); }

template <class P, uint32_t ab, uint32_t wb> static void lromux()
{
    constexpr uint32_t word = 1u << (P::nbit - wb); vc_contract("LROMUX"); use<P, ab>(); using B = Bits<P, ab>; vc::Box<std::array<TRGSWFFT<P>, ab>> adr; B::base = adr->data();
    vc::Box<TRLWE<P>> data; vc::fresh(*data, "data"); std::vector<TLWE<P>> res(word + 1); vc::Box<TLWE<P>> want, last; vc::fresh(*last, "unused output");
    for (uint32_t a = 0; a < (1u << wb); a++) for (uint32_t up = 0; up < (ab > wb ? 2 : 1); up++) {
        for (uint32_t i = 0; i < ab; i++) B::set(i, i < wb ? a >> i & 1 : up); res[word] = *last;
        vc_frame_begin(); vc_frame_allow(res.data(), sizeof(TLWE<P>) * word); LROMUX<P, ab, wb>(res, *adr, *data); vc_frame_end();
        for (uint32_t i = 0; i < word; i += (i + 1 == word || word < 64) ? 1 : (i + 16 < word ? 16 : word - 1 - i)) { SampleExtractIndex<P>(*want, *data, a * word + i); vc::eq_tol(res[i], *want, tol<P>(), "output i is coefficient (address * word + i) of the packed datum"); }
        vc::eq(res[word], *last, "further outputs are left alone");
    }
    vc_cover("lromux");
}
PROOF(C12_lromux_3_2) { lromux<lvl1param, 3, 2>(); }
PROOF(C12_lromux_7_4) { lromux<lvl1param, 7, 4>(); }
PROOF(C12_lromux_9_5) { lromux<lvl1param, 9, 5>(); }

template <class P, uint32_t ab> static void wbar()
{
    vc_contract("RAMwriteBar"); use<P, 2 * ab>(); using B = Bits<P, 2 * ab>; vc::Box<std::array<std::array<TRGSWFFT<P>, ab>, 2>> adr; B::base = (*adr)[0].data();
    vc::Box<TRLWE<P>> mem, wr, res; vc::fresh(*mem, "memory word"); vc::fresh(*wr, "written word");
    for (uint32_t a = 0; a < (1u << ab); a++) {
        for (uint32_t i = 0; i < ab; i++) { B::set(i, !(a >> i & 1)); B::set(ab + i, a >> i & 1); }
        for (uint32_t x = 0; x < (1u << ab); x++) {
            vc::fresh(*res, "res0"); vc_frame_begin(); vc::frame(*res); RAMwriteBar<P, ab>(*res, *wr, *mem, x, *adr); vc_frame_end();
            vc::eq_tol(*res, x == a ? *wr : *mem, tol<P>(), "the addressed word is replaced, every other word keeps its value");
        }
    }
    vc_cover("wbar");
}
PROOF(C12_wbar_3) { wbar<lvl1param, 3>(); }
PROOF(C12_wbar_5) { wbar<lvl1param, 5>(); }
