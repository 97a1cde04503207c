#pragma once
// libstdc++ internals behind std::unordered_map<std::string, ...> that live in the
// shared library: stand-ins with the documented behaviour (trusted)
#if VC_ENGINE
extern "C" __attribute__((noinline)) int memcmp(const void *a, const void *b, size_t n) { for (size_t i = 0; i < n; i++) { int d = ((const unsigned char *)a)[i] - ((const unsigned char *)b)[i]; if (d) return d; } return 0; }
extern "C" __attribute__((noinline)) int bcmp(const void *a, const void *b, size_t n) { return memcmp(a, b, n); }
extern "C" __attribute__((noinline)) size_t strlen(const char *s) { size_t n = 0; while (*(const volatile char *)(s + n)) n++; return n; }
namespace std {
size_t _Hash_bytes(const void *p, size_t n, size_t seed) { size_t h = seed; for (size_t i = 0; i < n; i++) h = h * 31 + ((const unsigned char *)p)[i]; return h; }
namespace __detail {
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const { return n < 13 ? 13 : 2 * n + 1; }
std::pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t bkt, size_t elt, size_t ins) const { return elt + ins > bkt ? std::pair<bool, size_t>(true, 13) : std::pair<bool, size_t>(false, 0); }
}
}
#endif
