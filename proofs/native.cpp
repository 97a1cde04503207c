// Run-time implementation of the specification vocabulary: used only to look for
// and to replay a concrete counterexample of an obligation that was not
// discharged, against the real code built by the real compiler.
#include <pthread.h>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <chrono>
#include <map>
#include <set>
#include <string>
#include <vector>
#include <dlfcn.h>
#include <unistd.h>
#include "vc.h"
typedef unsigned __int128 u128;
namespace {
struct Skip {};
struct Rec { std::string name; uint64_t count, esz; std::vector<unsigned char> data; };
uint64_t rs[2]; uint64_t curCtx = 0; bool haveCtx = false; std::vector<Rec> recs;
std::map<std::string, std::vector<std::pair<uint64_t, u128>>> cex; uint64_t nAssert = 0; uint64_t trialSeed = 0; std::string proofName, replayOut; bool failed = false;
uint64_t rnd() { uint64_t z = (rs[0] += 0x9e3779b97f4a7c15ull); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
u128 corner(unsigned bits)
{
    u128 one = 1, full = bits >= 128 ? ~(u128)0 : (one << bits) - 1;
    switch (rnd() % 8) { case 0: return 0; case 1: return full; case 2: return one << (bits - 1); case 3: return (one << (bits - 1)) - 1; case 4: return rnd() % 5; case 5: return full - rnd() % 5; case 6: return (one << (rnd() % bits)) & full; default: return (((one << (rnd() % bits)) & full) - 1) & full; }
}
u128 r128() { return ((u128)rnd() << 64) | rnd(); }
void put(unsigned char *p, uint64_t esz, u128 v) { memcpy(p, &v, esz); }
u128 get(const unsigned char *p, uint64_t esz) { u128 v = 0; memcpy(&v, p, esz); return v; }
void record(const void *p, uint64_t count, uint64_t esz, const char *name)
{
    if (recs.size() > 64) return;
    Rec r{name, count, esz, {}}; uint64_t n = count * esz; if (n > 16384) n = 16384; r.data.assign((const unsigned char *)p, (const unsigned char *)p + n); recs.push_back(r);
}
void fill(void *p_, uint64_t count, uint64_t esz, const char *name, bool rg, int64_t lo, int64_t hi)
{
    auto *p = (unsigned char *)p_; unsigned mode = rnd() % 6; unsigned bits = esz * 8;
    u128 span = (u128)((__int128)(lo >= 0 ? (__int128)(uint64_t)hi : (__int128)hi) - (__int128)lo) + 1; u128 cv = rg ? (u128)((__int128)lo + (__int128)(r128() % span)) : (rnd() & 1 ? corner(bits) : r128());
    for (uint64_t i = 0; i < count; i++) {
        u128 v;
        if (rg) { switch (mode) { case 0: v = (u128)((__int128)lo + (__int128)((rnd() & 1) ? span - 1 : 0)); break; case 1: v = cv; break; default: v = (u128)((__int128)lo + (__int128)(r128() % span)); } }
        else switch (mode) { case 0: v = corner(bits); break; case 1: v = cv; break; case 2: v = (rnd() % 32 == 0) ? r128() : 0; break; case 3: v = rnd() & 1 ? corner(bits) : r128(); break; default: v = r128(); }
        put(p + i * esz, esz, v);
    }
    auto it = cex.find(name); if (it != cex.end()) for (auto &e : it->second) if (e.first < count) put(p + e.first * esz, esz, e.second);
    record(p_, count, esz, name);
}
void fail(const char *label, const std::string &detail)
{
    failed = true;
    FILE *f = replayOut.empty() ? stdout : fopen(replayOut.c_str(), "a"); if (!f) f = stdout;
    fprintf(f, "CONCRETE COUNTEREXAMPLE on the real code\nproof: %s\nviolated: %s\n", proofName.c_str(), label);
    if (haveCtx) fprintf(f, "case: %llu\n", (unsigned long long)curCtx);
    fprintf(f, "detail: %s\ntrial-seed: %llu\n", detail.c_str(), (unsigned long long)trialSeed);
    for (auto &r : recs) {
        fprintf(f, "input %s (%llu x %llu bytes):", r.name.c_str(), (unsigned long long)r.count, (unsigned long long)r.esz);
        for (uint64_t i = 0; i < r.count && (i + 1) * r.esz <= r.data.size() && i < 1024; i++) { u128 v = get(r.data.data() + i * r.esz, r.esz); if (v >> 64) fprintf(f, " %llx%016llx", (unsigned long long)(v >> 64), (unsigned long long)v); else fprintf(f, " %llx", (unsigned long long)v); }
        fprintf(f, "\n");
    }
    if (f != stdout) { fclose(f); printf("counterexample: %s: %s %s\n", proofName.c_str(), label, detail.c_str()); }
    fflush(stdout); _exit(1);
}
[[noreturn]] void notNative(const char *w) { fprintf(stderr, "native: %s is a verifier-only construct\n", w); _exit(4); }
}
extern "C" {
void vc_assert(bool c, const char *l) { nAssert++; if (!c) fail(l, "condition is false"); }
void vc_assume(bool c) { if (!c) throw Skip{}; }
void vc_fresh(void *p, uint64_t n, uint64_t e, const char *s) { fill(p, n, e, s, false, 0, 0); }
void vc_fresh_range(void *p, uint64_t n, uint64_t e, const char *s, int64_t lo, int64_t hi) { fill(p, n, e, s, true, lo, hi); }
void vc_fresh_real(double *p, uint64_t n, const char *s) { double sc = ldexp(1, (int)(rnd() % 20)); for (uint64_t i = 0; i < n; i++) p[i] = ((double)(int64_t)rnd() / 9.3e18) * sc; record(p, n, 8, s); }
uint64_t vc_fresh_u64(const char *s) { uint64_t v; fill(&v, 1, 8, s, false, 0, 0); return v; }
uint64_t vc_fresh_u64_range(const char *s, int64_t lo, int64_t hi) { uint64_t v; fill(&v, 1, 8, s, true, lo, hi); return v; }
void vc_assert_eq_tol(const void *p, const void *q, uint64_t n, uint64_t e, uint64_t tol, const char *l)
{
    nAssert++; auto *a = (const unsigned char *)p, *b = (const unsigned char *)q;
    if (!tol && !memcmp(p, q, n * e)) return;
    for (uint64_t i = 0; i < n; i++) {
        u128 x = get(a + i * e, e), y = get(b + i * e, e), m = e >= 16 ? ~(u128)0 : ((u128)1 << (8 * e)) - 1, d = (x - y) & m, d2 = (y - x) & m; if (d2 < d) d = d2;
        if (d > tol) { char buf[200]; snprintf(buf, sizeof buf, "element %llu: got 0x%llx, expected 0x%llx", (unsigned long long)i, (unsigned long long)x, (unsigned long long)y); fail(l, buf); }
    }
}
void vc_assert_eq(const void *p, const void *q, uint64_t n, uint64_t e, const char *l) { vc_assert_eq_tol(p, q, n, e, 0, l); }
void vc_assert_perm(const void *p, const void *q, uint64_t n, uint64_t e, const char *l)
{
    nAssert++; std::multiset<u128> a, b; for (uint64_t i = 0; i < n; i++) { a.insert(get((const unsigned char *)p + i * e, e)); b.insert(get((const unsigned char *)q + i * e, e)); }
    if (a != b) fail(l, "the multisets differ");
}
void vc_assert_eqd(const double *p, const double *q, uint64_t n, const char *l)
{
    nAssert++; double mx = 0; for (uint64_t i = 0; i < n; i++) mx = std::max(mx, std::max(fabs(p[i]), fabs(q[i])));
    for (uint64_t i = 0; i < n; i++) if (!(fabs(p[i] - q[i]) <= 1e-9 * mx + 1e-300)) { char buf[200]; snprintf(buf, sizeof buf, "element %llu: got %.17g, expected %.17g", (unsigned long long)i, p[i], q[i]); fail(l, buf); }
}
void vc_replace(const void *, const void *) {}
void vc_unreplace(const void *) {}
void vc_uf_begin(const char *) { notNative("vc_uf"); }
void vc_uf_argn(uint64_t) {} void vc_uf_argr(double) {} void vc_uf_argb(const void *, uint64_t, uint64_t) {} void vc_uf_argd(const double *, uint64_t) {}
void vc_uf_out(void *, uint64_t, uint64_t, uint64_t) { notNative("vc_uf"); } void vc_uf_outd(double *, uint64_t, uint64_t) { notNative("vc_uf"); }
uint64_t vc_uf_ret(uint64_t) { notNative("vc_uf"); } double vc_uf_retd() { notNative("vc_uf"); }
void vc_cover(const char *) {}
void vc_frame_begin() {} void vc_frame_allow(const void *, uint64_t) {} void vc_frame_end() {}
void vc_contract(const char *) {} void vc_assumption(const char *) {}
void vc_ctx(uint64_t n) { curCtx = n; haveCtx = true; }
static uint64_t ringMod = 0;
static uint64_t rmod(uint64_t r) { return r == 201 ? 0xffffffff00000001ull : ringMod; }
void vc_ring_set(uint64_t m) { ringMod = m; }
uint64_t vc_ring_add(uint64_t r, uint64_t a, uint64_t b) { return (uint64_t)(((u128)a + b) % rmod(r)); }
uint64_t vc_ring_sub(uint64_t r, uint64_t a, uint64_t b) { u128 m = rmod(r); return (uint64_t)(((u128)a + (m - b % m)) % m); }
uint64_t vc_ring_mul(uint64_t r, uint64_t a, uint64_t b) { return (uint64_t)((u128)a * b % rmod(r)); }
void vc_assert_ring_eq(uint64_t r, uint64_t a, uint64_t b, const char *l) { nAssert++; if (a % rmod(r) != b % rmod(r)) fail(l, "ring elements differ: " + std::to_string(a) + " vs " + std::to_string(b)); }
void vc_print(uint64_t) {}
}
struct Args { void (*fn)(); uint64_t trials, seed; double tlimit; uint64_t done = 0, skipped = 0; };
static void *body(void *v)
{
    auto *a = (Args *)v; auto t0 = std::chrono::steady_clock::now();
    for (uint64_t t = 0; t < a->trials; t++) {
        if (t && std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > a->tlimit) break;
        trialSeed = a->seed + t; rs[0] = trialSeed * 0x1234567ull + 99; rnd(); recs.clear(); haveCtx = false; if (t) cex.clear();
        try { a->fn(); a->done++; } catch (Skip &) { a->skipped++; }
    }
    return nullptr;
}
int main(int argc, char **argv)
{
    Args a{nullptr, 1, 1, 1e9}; std::string cexf;
    for (int i = 1; i < argc; i++) { std::string s = argv[i]; if (s == "--trials") a.trials = strtoull(argv[++i], 0, 10); else if (s == "--seed") a.seed = strtoull(argv[++i], 0, 10); else if (s == "--time") a.tlimit = atof(argv[++i]); else if (s == "--cex") cexf = argv[++i]; else if (s == "--replay") replayOut = argv[++i]; else proofName = s; }
    if (!cexf.empty()) if (FILE *f = fopen(cexf.c_str(), "r")) { char nm[256]; unsigned long long i, lo, hi; while (fscanf(f, "%255s %llu %llu %llu", nm, &i, &lo, &hi) == 4) cex[nm].push_back({i, ((u128)hi << 64) | lo}); fclose(f); }
    a.fn = (void (*)())dlsym(RTLD_DEFAULT, proofName.c_str()); if (!a.fn) { fprintf(stderr, "no such proof %s\n", proofName.c_str()); return 3; }
    pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, (size_t)2 << 30); pthread_t th; if (pthread_create(&th, &at, body, &a)) return 3; pthread_join(th, nullptr);
    printf("native %s: %llu trials, %llu skipped, %llu assertions, no violation\n", proofName.c_str(), (unsigned long long)a.done, (unsigned long long)a.skipped, (unsigned long long)nAssert);
    fflush(stdout); _exit(0);
}
