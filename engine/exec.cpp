// tvc: modular symbolic executor / verification condition generator over the
// LLVM IR clang generates from the repository's current sources.
#include <pthread.h>
#include "smt.h"
#include "term.h"
#include <llvm/Analysis/LoopInfo.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/Dominators.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InstIterator.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Passes/PassBuilder.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Demangle/Demangle.h>
#include <algorithm>
#include <chrono>
#include <cmath>
#include <cxxabi.h>
#include <iostream>
#include <sstream>
#include <sys/resource.h>
#include <deque>
using namespace llvm;
using std::map; using std::string; using std::vector;
typedef uint64_t u64; typedef int64_t i64;

struct MapAbort { string why; };

// ------------------------------------------------------------------ memory
struct Entry { u64 len; uint32_t esz; unsigned w; Id val; u64 start; }; // esz==0: scalar of len bytes
struct Obj {
    u64 size; map<u64, Entry> e; string name; bool alive = true, ro = false, iterLocal = false, stack = false;
    const GlobalVariable *gv = nullptr; const Function *fn = nullptr; bool gvInit = false;
};
struct JEnt { uint32_t obj; u64 off; bool had; Entry old; };
static std::deque<Obj> objs;
static vector<JEnt> journal;
static bool journaling = true;

// ------------------------------------------------------------------ obligations
struct Oblig { string label, kind, method, detail; bool ok; bool unknown; double secs; };
static vector<Oblig> obligs;
static map<string, std::array<u64, 6>> labelStats;
static string curCtx; static u64 nCover = 0, nCoverOk = 0;
static unsigned smtTimeout = 60000; static u64 maxFail = 3; static u64 nFail = 0;
struct StopProof {};
static vector<Id> PC; static std::unordered_map<Id, int> known;
static map<string, string> cexLines;
static std::set<string> fnsExecuted, fnsReplaced, fnsContract, externs, assumptionsUsed;
static u64 steps = 0, mapsOk = 0, mapsFail = 0;
static bool verbose = false;

static bool inMap = false;
struct MapStore { uint32_t obj; i64 c0; i64 s; uint32_t size; Id val; unsigned w; };
struct MapLoad { uint32_t obj; i64 lo, hi; i64 c0, s; uint32_t size; };
static vector<MapStore> mstores; static vector<MapLoad> mloads; static u64 mapN = 0; static uint32_t mapObjStart = 0; static vector<uint32_t> mapIterObjs;

static void pushPC(Id c) { PC.push_back(c); known[c]++; known[D.bnot(c)] += 0; }
static void popPC() { Id c = PC.back(); PC.pop_back(); if (--known[c] == 0) known.erase(c); }

static void setSlot(uint32_t o, u64 off, const Entry &e)
{
    auto &m = objs[o].e; auto it = m.find(off);
    if (journaling) { JEnt j; j.obj = o; j.off = off; j.had = it != m.end(); if (j.had) j.old = it->second; journal.push_back(j); }
    if (it != m.end()) it->second = e; else m[off] = e;
}
static void eraseSlot(uint32_t o, u64 off)
{
    auto &m = objs[o].e; auto it = m.find(off);
    if (it == m.end()) return;
    if (journaling) journal.push_back({o, off, true, it->second});
    m.erase(it);
}
static void rollback(size_t mark)
{
    while (journal.size() > mark) {
        auto &j = journal.back(); auto &m = objs[j.obj].e;
        if (j.had) m[j.off] = j.old; else m.erase(j.off);
        journal.pop_back();
    }
}
static bool realw(unsigned w) { return w == W_REAL; }
static Id toBits(Id x, unsigned bits)
{
    const Node &n = D[x];
    if (n.w == W_REAL) {
        if (D.isC(x)) { if (bits == 64) return D.cst(64, n.k); float f = (float)D.rv(x); uint32_t b; memcpy(&b, &f, 4); return D.cst(32, b); }
        if (n.op == O_BITSF) return n.a[0];
        return D.nodeN(O_FBITS, bits, 0, {x});
    }
    if (n.op == O_PTR) {
        return D.add(D.cst(64, ((u128)(n.k + 1)) << 36), n.a[0]);
    }
    if (n.op == O_FN) return D.cst(64, ((u128)1 << 60) + (n.k << 4));
    if (n.w == 1 && bits == 8) return D.zext(x, 8);
    return x;
}
static Id toReal(Id x)
{
    const Node &n = D[x];
    if (n.w == W_REAL) return x;
    if (D.isC(x)) { if (n.w == 64) return D.cst(W_REAL, n.k); if (n.w == 32) { uint32_t b = (uint32_t)n.k; float f; memcpy(&f, &b, 4); return D.real(f); } }
    if (n.op == O_FBITS) return n.a[0];
    return D.nodeN(O_BITSF, W_REAL, 0, {x});
}
static void ensureGlobal(uint32_t o);
static Id elemOf(const Entry &e, u64 idx) { return D.sel(e.val, D.cst(64, e.start + idx), e.w); }
static unsigned nUndef = 0;
static Id undefOf(unsigned w) { return D.sym(w, "undef" + std::to_string(nUndef++)); }

static Id readScalar(uint32_t o, u64 off, u64 size, unsigned w)
{
    Obj &ob = objs[o];
    if (ob.gv) ensureGlobal(o);
    auto it = ob.e.upper_bound(off);
    auto fin = [&](Id v) -> Id { if (realw(w)) return toReal(v); return v; };
    if (it != ob.e.begin()) {
        --it;
        const Entry &e = it->second; u64 eo = it->first;
        if (off < eo + e.len) {
            if (e.esz == 0) {
                if (eo == off && e.len == size) {
                    if (realw(w)) return toReal(e.val);
                    if (D[e.val].w == W_REAL) return toBits(e.val, size * 8);
                    return e.val;
                }
                if (off + size <= eo + e.len) { Id b = toBits(e.val, e.len * 8); return fin(D.extract(b, (off - eo) * 8, size * 8)); }
            }
            else {
                u64 rel = off - eo;
                if (e.esz == size && rel % size == 0) { Id v = elemOf(e, rel / size); if (realw(w)) return toReal(v); if (D[v].w == W_REAL) return toBits(v, size * 8); return v; }
                if (size < e.esz && rel / e.esz == (rel + size - 1) / e.esz) { Id v = toBits(elemOf(e, rel / e.esz), e.esz * 8); return fin(D.extract(v, (rel % e.esz) * 8, size * 8)); }
            }
        }
    }
    // assemble bytewise / by halves
    if (size == 1) return undefOf(8);
    // fully uninitialised?
    {
        auto jt = ob.e.lower_bound(off);
        bool overlap = (jt != ob.e.end() && jt->first < off + size);
        if (jt != ob.e.begin()) { auto kt = std::prev(jt); if (kt->first + kt->second.len > off) overlap = true; }
        if (!overlap) return realw(w) ? undefOf(W_REAL) : undefOf(size * 8);
    }
    u64 h = 1; while (h * 2 < size) h *= 2;
    Id lo = toBits(readScalar(o, off, h, h * 8), h * 8), hi = toBits(readScalar(o, off + h, size - h, (size - h) * 8), (size - h) * 8);
    return fin(D.concat(hi, lo));
}
// make [off,off+len) free of entries
static void clearRange(uint32_t o, u64 off, u64 len)
{
    auto &m = objs[o].e;
    if (!len) return;
    auto it = m.upper_bound(off);
    if (it != m.begin()) --it;
    vector<std::pair<u64, Entry>> hit;
    for (; it != m.end() && it->first < off + len; ++it) if (it->first + it->second.len > off) hit.push_back(*it);
    for (auto &h : hit) {
        u64 a = h.first, b = a + h.second.len; Entry e = h.second;
        eraseSlot(o, a);
        if (a < off) { // left rest
            if (e.esz) {
                u64 n = (off - a) / e.esz; if (n) { Entry l = e; l.len = n * e.esz; setSlot(o, a, l); }
                u64 rem = (off - a) % e.esz;
                if (rem) { Id v = toBits(elemOf(e, n), e.esz * 8); setSlot(o, a + n * e.esz, {rem, 0, (unsigned)rem * 8, D.extract(v, 0, rem * 8), 0}); }
            }
            else { u64 n = off - a; setSlot(o, a, {n, 0, (unsigned)n * 8, D.extract(toBits(e.val, e.len * 8), 0, n * 8), 0}); }
        }
        if (b > off + len) {
            u64 c = off + len;
            if (e.esz) {
                u64 n = (c - a + e.esz - 1) / e.esz; u64 c2 = a + n * e.esz;
                if (c2 < b) { Entry r = e; r.len = b - c2; r.start = e.start + n; setSlot(o, c2, r); }
                if (c2 > c) { Id v = toBits(elemOf(e, n - 1), e.esz * 8); u64 k = c2 - c; setSlot(o, c, {k, 0, (unsigned)k * 8, D.extract(v, (e.esz - k) * 8, k * 8), 0}); }
            }
            else { u64 n = b - c; setSlot(o, c, {n, 0, (unsigned)n * 8, D.extract(toBits(e.val, e.len * 8), (c - a) * 8, n * 8), 0}); }
        }
    }
}
static bool frameOn = false; static uint32_t frameStart = 0; struct FrameR { uint32_t o; u64 a, b; }; static vector<FrameR> frameAllow;
static void oblig(Id c, const string &label, const string &kind);
static void frameCheck(uint32_t o, u64 off, u64 len)
{
    if (!frameOn || o >= frameStart || len == 0 || objs[o].stack) return; // (stack slots of the harness itself are its own temporaries)
    for (auto &r : frameAllow) if (r.o == o && off >= r.a && off + len <= r.b) return;
    if (objs[o].gv && objs[o].gv->getName().starts_with("_ZGV")) return;
    oblig(D.FALSE_, "frame: write to " + objs[o].name + "+" + std::to_string(off), "frame");
}
static void writeScalar(uint32_t o, u64 off, u64 size, Id v)
{
    if (objs[o].gv) ensureGlobal(o);
    frameCheck(o, off, size);
    if (objs[o].ro) oblig(D.FALSE_, "write to constant object " + objs[o].name, "frame");
    auto it = objs[o].e.find(off);
    unsigned w = D[v].w; if (w == 1) { v = D.zext(v, 8 * size); w = 8 * size; }
    if (it != objs[o].e.end() && it->second.esz == 0 && it->second.len == size) { setSlot(o, off, {size, 0, w, v, 0}); return; }
    clearRange(o, off, size);
    setSlot(o, off, {size, 0, w, v, 0});
}
static void writeBlock(uint32_t o, u64 off, u64 count, uint32_t esz, unsigned w, Id block, u64 start)
{
    if (objs[o].gv) ensureGlobal(o);
    frameCheck(o, off, count * esz);
    if (objs[o].ro) oblig(D.FALSE_, "write to constant object " + objs[o].name, "frame");
    clearRange(o, off, count * esz);
    if (count) setSlot(o, off, {count * esz, esz, w, block, start});
}
static uint32_t newObj(u64 size, const string &name)
{
    objs.emplace_back(); objs.back().size = size; objs.back().name = name; return objs.size() - 1;
}
static Id mkPtr(uint32_t o, Id off) { return D.nodeN(O_PTR, 64, o, {off}); }

// snapshot of an element range as a block term (index 0 = first element)
static Id snapshot(uint32_t o, u64 off, u64 count, uint32_t esz, unsigned w)
{
    Obj &ob = objs[o];
    if (ob.gv) ensureGlobal(o);
    vector<Id> pw; // triplets
    u64 i = 0;
    while (i < count) {
        u64 a = off + i * esz;
        auto it = ob.e.upper_bound(a); bool done = false;
        if (it != ob.e.begin()) {
            --it; const Entry &e = it->second;
            if (e.esz == esz && it->first + e.len > a && (a - it->first) % esz == 0 && e.w == w) {
                u64 n = std::min((it->first + e.len - a) / esz, count - i), st = e.start + (a - it->first) / esz;
                if (pw.size() && pw[pw.size() - 2] == e.val && pw[pw.size() - 1] + pw[pw.size() - 3] == st) pw[pw.size() - 3] += n;
                else { pw.push_back(n); pw.push_back(e.val); pw.push_back(st); }
                i += n; done = true;
            }
        }
        if (!done) {
            Id v = readScalar(o, a, esz, w);
            if (D[v].op == O_SEL && D.isC(D[v].a[1])) {
                Id b = D[v].a[0]; u64 st = (u64)D.cv(D[v].a[1]);
                if (pw.size() && pw[pw.size() - 2] == b && pw[pw.size() - 1] + pw[pw.size() - 3] == st) pw[pw.size() - 3]++;
                else { pw.push_back(1); pw.push_back(b); pw.push_back(st); }
            }
            else {
                Id cell = D.nodeN(B_CELL, W_BLOCK, w, {v});
                if (pw.size() && pw[pw.size() - 2] == cell) pw[pw.size() - 3]++;
                else { pw.push_back(1); pw.push_back(cell); pw.push_back(0); }
            }
            i++;
        }
    }
    if (pw.size() == 3) {
        Id b = pw[1];
        if (D[b].op == B_CELL) return D.lam(D[b].a[0]);
        if (pw[2] == 0) return b;
        return D.lam(D.sel(b, D.add(D.KV, D.cst(64, pw[2])), w));
    }
    return D.nodeN(B_PW, W_BLOCK, w, pw);
}

// ------------------------------------------------------------------ numeric fingerprints
static int fpSeed = 0; static std::unordered_map<Id, u64> fpMemos[33];
static const u64 FP = (1ull << 61) - 1;
static u64 fpMix(u64 a, u64 b) { u64 h = a * 0x9e3779b97f4a7c15ull + b; h ^= h >> 29; h *= 0xbf58476d1ce4e5b9ull; h ^= h >> 32; return h; }
static u128 fpVal(Id x);
static u128 fpLeaf(Id x, u64 h)
{
    const Node &n = D[x]; if (fpSeed) h = fpMix(h, (u64)fpSeed);
    if (n.w >= 1 && n.w <= 128) {
        u128 v = ((u128)fpMix(h, 7) << 64) | fpMix(h, 3);
        u128 full = D.rmask(n.w);
        if (n.ulo != 0 || n.uhi != full) return n.ulo + v % (n.uhi - n.ulo + 1);
        if (n.w < 128 && (n.slo > -(i128)((u128)1 << (n.w - 1)) || n.shi < (i128)(((u128)1 << (n.w - 1)) - 1))) return (u128)(n.slo + (i128)(v % (u128)(n.shi - n.slo + 1))) & full;
        return v & full;
    }
    if (n.w == W_ZP) return h % ZP_P;
    if (n.w == W_ZR) return g_ringR ? h % g_ringR : h;
    return h % FP;
}
static u64 fpBlock(Id b)
{
    auto &fpMemo = fpMemos[fpSeed]; auto it = fpMemo.find(b); if (it != fpMemo.end()) return it->second;
    Node n = D[b]; u64 h = 0;
    if (n.op == B_SYM) h = fpMix(0x51, (u64)n.k);
    else if (n.op == B_UF) {
        h = fpMix(0x52, (u64)n.k);
        // args: (len, block) pairs or (0, scalar)
        for (uint32_t i = 0; i < n.n; i += 2) {
            if (D.cv(n.a[i]) == 0) h = fpMix(h, (u64)fpVal(n.a[i + 1]));
            else {
                uint32_t len = (uint32_t)D.cv(n.a[i]);
                h = fpMix(h, len);
                uint32_t idx[5] = {0, 1 % len, len / 3, len / 2, len - 1};
                for (uint32_t q : idx) {
                    // element value; width only matters for atoms, use the block's own
                    Id blk = n.a[i + 1]; Node bn = D[blk];
                    unsigned ew = bn.op == B_SYM ? (unsigned)(bn.k >> 64) : bn.op == B_LAM ? (unsigned)bn.k : bn.op == B_UF ? (unsigned)(bn.k >> 64) : (unsigned)bn.k;
                    h = fpMix(h, (u64)fpVal(D.sel(blk, D.cst(64, q), ew)));
                }
            }
        }
    }
    else h = fpMix(0x53, b);
    fpMemos[fpSeed][b] = h; return h;
}
static std::unordered_map<Id, u128> fpvs[33];
static u128 fpVal(Id x)
{
    { auto &fpv = fpvs[fpSeed]; auto it = fpv.find(x); if (it != fpv.end()) return it->second; }
    Node n = D[x]; u128 r = 0; auto A = [&](int i) { return fpVal(n.a[i]); };
    bool bv = n.w >= 1 && n.w <= 128;
    auto radd = [&](u128 a, u128 b) -> u128 { if (bv) return (a + b) & D.rmask(n.w); if (n.w == W_REAL) return (a + b) % FP; return D.radd(n.w, a, b); };
    auto rmul = [&](u128 a, u128 b) -> u128 { if (bv) return (a * b) & D.rmask(n.w); if (n.w == W_REAL) return (a * b) % FP; return D.rmul(n.w, a, b); };
    auto coef = [&](u128 c) -> u128 {
        if (n.w != W_REAL) return c;
        u64 b = (u64)c; double d; memcpy(&d, &b, 8); int e; double m = frexp(d, &e); i64 mi = (i64)ldexp(m, 53); e -= 53;
        u128 v = mi < 0 ? FP - (u64)(-mi) % FP : (u64)mi % FP; u128 base = e >= 0 ? 2 : (FP + 1) / 2; for (int i = 0; i < abs(e); i++) v = v * base % FP; return v;
    };
    std::unordered_map<Id, u128> env; u128 o;
    switch (n.op) {
    case O_CONST: r = coef(n.k); break;
    case O_POLY: r = coef(n.k); for (uint32_t i = 0; i < n.n; i++) r = radd(r, rmul(coef(n.t[i].c), fpVal(n.t[i].m))); break;
    case O_MONO: r = A(0); for (uint32_t i = 1; i < n.n; i++) r = rmul(r, A(i)); break;
    case O_BIG: case O_IND: case O_ZEXT: r = A(0); break;
    case O_SEL: r = fpLeaf(x, fpMix(fpBlock(n.a[0]), (u64)fpVal(n.a[1]))); break;
    case O_SYM: r = fpLeaf(x, fpMix(0x99, (u64)n.k)); break;
    case O_KV: r = 12345; break;
    case O_UFS: { u64 h = fpMix(0x77, (u64)n.k); for (uint32_t i = 0; i < n.n; i++) h = fpMix(h, (u64)A(i)); r = fpLeaf(x, h); break; }
    case O_SITOFP: { i128 s = D.sgn(D[n.a[0]].w, A(0)); r = s < 0 ? FP - (u128)(-s) % FP : (u128)s % FP; break; }
    case O_UITOFP: r = A(0) % FP; break;
    case O_AGG: { u64 h = 5; for (uint32_t i = 0; i < n.n; i++) h = fpMix(h, (u64)A(i)); r = h; break; }
    case O_PTR: r = fpMix((u64)n.k, (u64)A(0)); break;
    default:
        if (bv && n.op != O_FN) {
            bool all = true;
            for (uint32_t i = 0; i < n.n && all; i++) env[n.a[i]] = A(i);
            if (n.op == O_EQ0 && !(D[n.a[0]].w <= 128)) { r = A(0) == 0; break; }
            if (D.ceval(x, env, o)) { r = o; break; }
        }
        { u64 h = fpMix(n.op, (u64)n.k); for (uint32_t i = 0; i < n.n; i++) h = fpMix(h, D[n.a[i]].w == W_BLOCK ? fpBlock(n.a[i]) : (u64)A(i)); r = fpLeaf(x, h); }
    }
    fpvs[fpSeed][x] = r; return r;
}
static unsigned blockW(Id b)
{
    const Node &n = D[b];
    if (n.op == B_SYM || n.op == B_UF) return (unsigned)(n.k >> 64);
    return (unsigned)n.k;
}

// ------------------------------------------------------------------ proving
static bool provedEqTerm(Id a, Id b) // structural only
{
    if (a == b) return true;
    if (D[a].w != D[b].w) return false;
    if (fpVal(a) != fpVal(b)) return false;
    try { return D.isZeroFlat(D.sub(a, b)); } catch (Unsupported &) { return false; }
}
static void collectKConds(Id x, std::set<Id> &out, std::unordered_set<Id> &seen)
{
    vector<Id> st{x};
    while (!st.empty()) {
        Id y = st.back(); st.pop_back();
        const Node &n = D[y];
        if (!(n.flags & 1) || !seen.insert(y).second) continue;
        if (n.op == O_EQ0 || n.op == O_ULT || n.op == O_SLT) out.insert(y);
        if (n.op == O_POLY) for (uint32_t i = 0; i < n.n; i++) st.push_back(n.t[i].m);
        else if (n.op == B_PW) for (uint32_t i = 1; i < n.n; i += 3) st.push_back(n.a[i]);
        else for (uint32_t i = 0; i < n.n; i++) st.push_back(n.a[i]);
    }
}
static bool evalK(Id c, u64 k, bool &out)
{
    std::unordered_map<Id, u128> env; env[D.KV] = k; u128 o;
    if (!D.ceval(c, env, o)) return false;
    out = o != 0; return true;
}
// breakpoints of K-only conditions
static void breakpoints(Id c, u64 lo, u64 hi, std::set<u64> &bp)
{
    bool prev, cur;
    if (hi - lo > 16384 || !evalK(c, lo, prev)) return;
    for (u64 k = lo + 1; k < hi; k++) { if (!evalK(c, k, cur)) return; if (cur != prev) bp.insert(k); prev = cur; }
}
// borders between the pieces a K-dependent read of a piecewise block crosses
static void selBreakpoints(Id x, u64 lo, u64 hi, std::set<u64> &bp, std::unordered_set<Id> &seen)
{
    if (hi - lo > 16384) return;
    vector<Id> st{x};
    while (!st.empty()) {
        Id y = st.back(); st.pop_back();
        const Node &n = D[y];
        if (!(n.flags & 1) || !seen.insert(y).second) continue;
        if (n.op == O_SEL && D[n.a[0]].op == B_PW) {
            const Node b = D[n.a[0]]; vector<u64> ends; u64 pos = 0; for (uint32_t i = 0; i < b.n; i += 3) ends.push_back(pos += b.a[i]);
            i64 prev = -1;
            for (u64 k = lo; k < hi; k++) {
                std::unordered_map<Id, u128> env; env[D.KV] = k; u128 o; if (!D.ceval(n.a[1], env, o)) break;
                i64 pc = std::upper_bound(ends.begin(), ends.end(), (u64)o) - ends.begin();
                if (prev >= 0 && pc != prev) bp.insert(k); prev = pc;
            }
        }
        if (n.op == O_POLY) for (uint32_t i = 0; i < n.n; i++) st.push_back(n.t[i].m);
        else if (n.op == B_PW) for (uint32_t i = 1; i < n.n; i += 3) st.push_back(n.a[i]);
        else for (uint32_t i = 0; i < n.n; i++) st.push_back(n.a[i]);
    }
}
static Id restrictK(Id x, u64 lo, u64 hi)
{
    D.klo = lo; D.khi = hi;
    TermDB::Subst memo;
    return D.rebuild(x, memo, [&](Id y) -> Id {
        const Node &n = D[y];
        if (!(n.flags & 1)) return y;
        if (n.op == O_EQ0 || n.op == O_ULT || n.op == O_SLT) {
            bool a; if (evalK(y, lo, a)) {
                bool same = true, b;
                // conditions are constant between breakpoints; verify every value
                for (u64 k = lo + 1; k < hi && same; k++) { evalK(y, k, b); same = b == a; }
                if (same) return D.boolc(a);
            }
        }
        return 0xffffffffu;
    });
}
static SmtResult smtFull(Id goal)
{
    SmtResult r = smtProve(PC, goal, D.klo, D.khi, smtTimeout);
    return r;
}
static void addModel(const SmtResult &r)
{
    if (!cexLines.empty()) return;
    u64 kval = 0; for (auto &m : r.model) if (m.first == D.KV) kval = (u64)m.second;
    for (auto &m : r.model) {
        const Node &n = D[m.first]; std::ostringstream os;
        if (n.op == O_SYM) { auto &s = D.syms[(size_t)n.k]; os << s.name << " 0 " << (u64)m.second << " " << (u64)(m.second >> 64); cexLines[os.str()] = ""; }
        else if (n.op == O_SEL && D[n.a[0]].op == B_SYM) {
            auto &s = D.syms[(size_t)(u64)D[n.a[0]].k]; u64 idx;
            if (D.isC(n.a[1])) idx = (u64)D.cv(n.a[1]);
            else { std::unordered_map<Id, u128> env; env[D.KV] = kval; u128 o; if (!D.ceval(n.a[1], env, o)) continue; idx = (u64)o; }
            os << s.name << " " << idx << " " << (u64)m.second << " " << (u64)(m.second >> 64); cexLines[os.str()] = "";
        }
    }
}
static void record(const string &label, const string &kind, bool ok, bool unknown, const string &method, double secs, const string &detail)
{
    auto &st = labelStats[label];
    st[0]++; if (ok) st[1]++;
    if (method == "structural" || method == "const") st[2]++; else if (method == "elementwise") st[3]++; else st[4]++;
    if (!ok) {
        obligs.push_back({label + curCtx, kind, method, detail, ok, unknown, secs});
        nFail++;
        fprintf(stderr, "OBLIGATION FAILED [%s] %s%s (%s) %s\n", kind.c_str(), label.c_str(), curCtx.c_str(), method.c_str(), detail.c_str());
        if (nFail >= maxFail) throw StopProof();
    }
}
static map<string, u64> methodCount; 
static void oblig(Id c, const string &label, const string &kind)
{
    if (c == D.TRUE_) { record(label, kind, true, false, "structural", 0, ""); methodCount["normaliser"]++; return; }
    if (D[c].op == O_EQ0 && D.isZeroFlat(D[c].a[0])) { record(label, kind, true, false, "structural", 0, ""); methodCount["normaliser"]++; return; }
    if (inMap && (D[c].flags & 1)) {
        std::set<Id> cs; std::unordered_set<Id> seen; collectKConds(c, cs, seen);
        // try per-piece restriction
        u64 lo = D.klo, hi = D.khi; std::set<u64> bp; for (Id q : cs) breakpoints(q, lo, hi, bp);
        bp.insert(hi); u64 a = lo; bool all = true;
        for (u64 b : bp) { Id r = restrictK(c, a, b); if (r != D.TRUE_ && !(D[r].op == O_EQ0 && D.isZeroFlat(D[r].a[0]))) { SmtResult s = smtProve(PC, r, a, b, smtTimeout); if (s.r != SmtResult::VALID) { all = false; break; } methodCount["smt:" + s.solver]++; } a = b; }
        D.klo = lo; D.khi = hi;
        if (!all) throw MapAbort{"obligation under K"};
        record(label, kind, true, false, "smt", 0, ""); return;
    }
    SmtResult r;
    try { r = smtFull(c); } catch (Unsupported &u) { r.r = SmtResult::UNKNOWN; r.solver = string("unsupported:") + u.what(); r.secs = 0; }
    if (r.r == SmtResult::VALID) { record(label, kind, true, false, "smt", r.secs, ""); methodCount["smt:" + r.solver]++; return; }
    if (inMap) throw MapAbort{"failed obligation"};
    if (r.r == SmtResult::INVALID) addModel(r);
    string det = D.str(c, 7); if (det.size() > 1500) det = det.substr(0, 1500) + "...";
    record(label, kind, false, r.r == SmtResult::UNKNOWN, "smt:" + r.solver, r.secs, det);
}
// equality of two blocks on [0,len), structural + elementwise (no SMT unless allowSmt)
static bool blocksEq(Id A, u64 sa, Id B, u64 sb, u64 len, unsigned w, bool allowSmt, const string &label, const string &kind)
{
    if (A == B && sa == sb) return true;
    u64 slo = D.klo, shi = D.khi; struct Rst { u64 a, b; ~Rst() { D.klo = a; D.khi = b; } } rst{slo, shi};
    if (inMap) throw MapAbort{"block compare in map"};
    D.klo = 0; D.khi = len;
    Id kv = D.KV;
    Id ba = D.sel(A, sa ? D.add(kv, D.cst(64, sa)) : kv, w), bb = D.sel(B, sb ? D.add(kv, D.cst(64, sb)) : kv, w);
    if (ba == bb) return true;
    if (D[ba].w != D[bb].w) return false;
    if (!allowSmt) { // candidates for sharing: a few elements reject most of them
        D.klo = D.khi = 0;
        for (u64 i : {(u64)0, (u64)1 % len, len / 2, len - 1}) { Id x = D.sel(A, D.cst(64, sa + i), w), y = D.sel(B, D.cst(64, sb + i), w); if (x != y && !provedEqTerm(x, y)) return false; }
        D.klo = 0; D.khi = len;
    }
    std::set<Id> cs; std::unordered_set<Id> seen; collectKConds(ba, cs, seen); collectKConds(bb, cs, seen);
    std::set<u64> bp; for (Id c : cs) breakpoints(c, 0, len, bp);
    { std::unordered_set<Id> s2; selBreakpoints(ba, 0, len, bp, s2); selBreakpoints(bb, 0, len, bp, s2); }
    // piecewise blocks contribute their piece borders
    auto pwb = [&](Id X, u64 s) { const Node n = D[X]; if (n.op == B_PW) { u64 p = 0; for (uint32_t i = 0; i < n.n; i += 3) { p += n.a[i]; if (p > s && p - s < len) bp.insert(p - s); } } };
    pwb(A, sa); pwb(B, sb);
    bp.insert(len);
    u64 a = 0;
    for (u64 b : bp) {
        D.klo = a; D.khi = b;
        Id ra = D.sel(A, sa ? D.add(kv, D.cst(64, sa)) : kv, w), rb = D.sel(B, sb ? D.add(kv, D.cst(64, sb)) : kv, w);
        ra = restrictK(ra, a, b); rb = restrictK(rb, a, b);
        bool ok = ra == rb || (b - a > 1 && D.isZeroFlat(D.sub(ra, rb)));
        if (!ok && getenv("TVC_DBG")) fprintf(stderr, "PIECE %s [%llu,%llu): %s  VS  %s\n", label.c_str(), (unsigned long long)a, (unsigned long long)b, D.str(ra, 6).substr(0, 400).c_str(), D.str(rb, 6).substr(0, 400).c_str());
        if (!ok && allowSmt && b - a > 2) {
            Id g = D.eq(ra, rb);
            try { SmtResult r = smtProve(PC, g, a, b, smtTimeout / 4); if (r.r == SmtResult::VALID) { ok = true; methodCount["smt:" + r.solver]++; } } catch (Unsupported &) {}
        }
        if (!ok) {
            // elementwise
            for (u64 i = a; i < b; i++) {
                D.klo = D.khi = 0;
                Id x = D.sel(A, D.cst(64, sa + i), w), y = D.sel(B, D.cst(64, sb + i), w);
                if (x == y || provedEqTerm(x, y)) continue;
                if (!allowSmt) return false;
                if (w == W_REAL || w == W_ZP || w == W_ZR) { record(label, kind, false, false, "normaliser", 0, "element " + std::to_string(i) + ": " + D.str(x, 6).substr(0, 600) + "  !=  " + D.str(y, 6).substr(0, 600)); return false; }
                Id g = D.eq(x, y); SmtResult r;
                try { r = smtFull(g); } catch (Unsupported &u) { r.r = SmtResult::UNKNOWN; r.solver = u.what(); r.secs = 0; }
                if (r.r == SmtResult::VALID) { methodCount["smt:" + r.solver]++; continue; }
                if (r.r == SmtResult::INVALID) addModel(r);
                record(label, kind, false, r.r == SmtResult::UNKNOWN, "smt:" + r.solver, r.secs, "element " + std::to_string(i) + ": " + D.str(x, 6).substr(0, 600) + "  !=  " + D.str(y, 6).substr(0, 600));
                return false;
            }
        }
        a = b;
    }
    return true;
}
static vector<Id> ufArgs; static string ufName;
struct UfBucket { vector<Id> items; bool split = false; std::unordered_map<u64, vector<Id>> sub; };
static std::unordered_map<u64, UfBucket> ufByFp; static std::unordered_set<Id> ufCanon;
static Id ufBlock(int outIdx, unsigned w)
{
    uint32_t nm = D.ufId(ufName);
    Id n = D.nodeN(B_UF, W_BLOCK, (u128)nm | ((u128)outIdx << 32) | ((u128)w << 64), ufArgs);
    if (inMap) return n;
    if (ufCanon.count(n)) return n;
    u64 fp = fpBlock(n);
    // many small-range arguments collide on one valuation: refine a crowded bucket by 32 more
    auto refine = [](Id x) { u64 h = 1; for (int s = 1; s <= 32; s++) { fpSeed = s; h = fpMix(h, fpBlock(x)); } fpSeed = 0; return h; };
    auto &b = ufByFp[fp]; vector<Id> *vp = &b.items;
    if (!b.split && b.items.size() >= 8) { b.split = true; for (Id m : b.items) b.sub[refine(m)].push_back(m); }
    if (b.split) vp = &b.sub[refine(n)];
    auto &v = *vp;
    for (Id m : v) {
        if (m == n) return m;
        Node x = D[m], y = D[n];
        if (x.k != y.k || x.n != y.n) continue;
        bool ok = true;
        for (uint32_t i = 0; ok && i < x.n; i += 2) {
            if (x.a[i] != y.a[i]) ok = false;
            else if (x.a[i + 1] == y.a[i + 1]) continue;
            else if (D.cv(x.a[i]) == 0) ok = provedEqTerm(x.a[i + 1], y.a[i + 1]);
            else ok = blocksEq(x.a[i + 1], 0, y.a[i + 1], 0, (u64)D.cv(x.a[i]), blockW(x.a[i + 1]), false, "", "");
        }
        if (ok) return m;
    }
    v.push_back(n); ufCanon.insert(n); return n;
}

#include "interp.inc"
