#pragma once
// Specification vocabulary.  Under the verifier (tvc) the vc_* functions are
// intrinsics; under -DVC_NATIVE they are implemented in native.cpp and the same
// contracts become run-time checks used only to search for / replay concrete
// counterexamples of an obligation the verifier did not discharge.
#include <cstddef>
#include <cstdint>
extern "C" {
void vc_assert(bool c, const char *label);
void vc_assume(bool c);
void vc_fresh(void *p, uint64_t count, uint64_t esz, const char *name);
void vc_fresh_range(void *p, uint64_t count, uint64_t esz, const char *name, int64_t lo, int64_t hi);
void vc_fresh_real(double *p, uint64_t count, const char *name);
uint64_t vc_fresh_u64(const char *name);
uint64_t vc_fresh_u64_range(const char *name, int64_t lo, int64_t hi);
void vc_assert_eq(const void *p, const void *q, uint64_t count, uint64_t esz, const char *label);
void vc_assert_eq_tol(const void *p, const void *q, uint64_t count, uint64_t esz, uint64_t tol, const char *label);
void vc_assert_perm(const void *p, const void *q, uint64_t count, uint64_t esz, const char *label);
void vc_assert_eqd(const double *p, const double *q, uint64_t count, const char *label);
void vc_replace(const void *f, const void *stub);
void vc_unreplace(const void *f);
void vc_uf_begin(const char *name);
void vc_uf_argn(uint64_t x);
void vc_uf_argr(double x);
void vc_uf_argb(const void *p, uint64_t count, uint64_t esz);
void vc_uf_argd(const double *p, uint64_t count);
void vc_uf_id(bool g, const void *p, uint64_t count, uint64_t esz); // axiom: while g holds, the next vc_uf_out equals p
void vc_uf_out(void *p, uint64_t count, uint64_t esz, uint64_t idx);
void vc_uf_outd(double *p, uint64_t count, uint64_t idx);
uint64_t vc_uf_ret(uint64_t bits);
double vc_uf_retd();
void vc_cover(const char *label);
void vc_frame_begin();
void vc_frame_allow(const void *p, uint64_t len);
void vc_frame_end();
void vc_contract(const char *name);
void vc_assumption(const char *text);
void vc_ctx(uint64_t n);
void vc_ring_set(uint64_t mod);
uint64_t vc_ring_add(uint64_t ring, uint64_t a, uint64_t b);
uint64_t vc_ring_sub(uint64_t ring, uint64_t a, uint64_t b);
uint64_t vc_ring_mul(uint64_t ring, uint64_t a, uint64_t b);
void vc_assert_ring_eq(uint64_t ring, uint64_t a, uint64_t b, const char *label);
void vc_print(uint64_t x);
}
#define PROOF(name) extern "C" void proof_##name()
// bounded stand-in: only ever run natively, never counted as proved
#ifdef VC_NATIVE
#define BOUNDED(name) extern "C" void bounded_##name()
#else
#define BOUNDED(name) template <int> void bounded_##name()
#endif
#ifdef VC_NATIVE
#define VC_ENGINE 0
#else
#define VC_ENGINE 1
#endif

#include <array>
#include <type_traits>
namespace vc {
template <class T> struct scal { using t = T; };
template <class T, size_t N> struct scal<std::array<T, N>> { using t = typename scal<T>::t; };
template <class T> using scalar_t = typename scal<T>::t;
// every element of a (nested) array, one unconstrained value each
template <class A> inline void fresh(A &a, const char *name) { vc_fresh(&a, sizeof(A) / sizeof(scalar_t<A>), sizeof(scalar_t<A>), name); }
template <class A> inline void fresh_range(A &a, const char *name, int64_t lo, int64_t hi) { vc_fresh_range(&a, sizeof(A) / sizeof(scalar_t<A>), sizeof(scalar_t<A>), name, lo, hi); }
template <class A> inline void fresh_real(A &a, const char *name) { vc_fresh_real((double *)&a, sizeof(A) / sizeof(double), name); }
// number of scalars of a dense array, 0 when padding separates its parts
template <class A> struct dense { static constexpr size_t n = 1; };
template <class T, size_t N> struct dense<std::array<T, N>> { static constexpr size_t n = sizeof(std::array<T, N>) == N * dense<T>::n * sizeof(scalar_t<T>) ? N * dense<T>::n : 0; };
template <class A> inline void eq_tol(const A &a, const A &b, uint64_t tol, const char *label)
{
    using S = scalar_t<A>;
    if constexpr (dense<A>::n == 0) for (size_t i = 0; i < a.size(); i++) eq_tol(a[i], b[i], tol, label);
    else if constexpr (std::is_same_v<S, double>) vc_assert_eqd((const double *)&a, (const double *)&b, dense<A>::n, label);
    else vc_assert_eq_tol(&a, &b, dense<A>::n, sizeof(S), tol, label);
}
template <class A> inline void eq(const A &a, const A &b, const char *label) { eq_tol(a, b, 0, label); }
// pieces of a state that the function must leave alone
template <class A> inline void frame(const A &a) { vc_frame_allow(&a, sizeof(A)); }
template <class A> struct Box { // 64-byte aligned heap cell
    A *p;
    Box() { p = (A *)::operator new(sizeof(A), std::align_val_t(64)); }
    ~Box() { ::operator delete((void *)p, std::align_val_t(64)); }
    A &operator*() const { return *p; }
    A *operator->() const { return p; }
    Box(const Box &) = delete;
};
}
