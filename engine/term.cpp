#include "term.h"
#include <algorithm>
#include <cmath>
TermDB D;
uint64_t g_ringR = 0;

static inline uint64_t mix(uint64_t h, uint64_t v)
{
    h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
    h *= 0xff51afd7ed558ccdull; h ^= h >> 32; return h;
}
static bool isBits(unsigned w) { return w >= 1 && w <= 128; }

TermDB::TermDB()
{
    nodes.reserve(1 << 20); table.reserve(1 << 20);
    TRUE_ = FALSE_ = 0;
    FALSE_ = cst(1, 0); TRUE_ = cst(1, 1);
    Node n{}; n.op = O_KV; n.w = 64; KV = intern(n, nullptr, 0);
}
void *TermDB::alloc(size_t n)
{
    n = (n + 15) & ~(size_t)15;
    if (chunkPos + n > chunkCap) {
        chunkCap = std::max<size_t>(n, 1 << 22);
        chunks.push_back((char *)aligned_alloc(16, chunkCap)); chunkPos = 0;
    }
    void *p = chunks.back() + chunkPos; chunkPos += n; return p;
}
Id TermDB::intern(Node n, const void *payload, size_t bytes)
{
    uint64_t h = mix(mix(n.op * 1315423911u + n.w, (uint64_t)n.k), (uint64_t)(n.k >> 64));
    const uint64_t *q = (const uint64_t *)payload;
    for (size_t i = 0; i < bytes / 8; i++) h = mix(h, q[i]);
    if (bytes & 7) { uint64_t r = 0; memcpy(&r, (char *)payload + (bytes & ~7ull), bytes & 7); h = mix(h, r); }
    h = mix(h, n.n);
    auto rg = table.equal_range(h);
    for (auto it = rg.first; it != rg.second; ++it) {
        const Node &m = nodes[it->second];
        if (m.op == n.op && m.w == n.w && m.k == n.k && m.n == n.n && (bytes == 0 || memcmp(m.a, payload, bytes) == 0)) return it->second;
    }
    if (bytes) { void *p = alloc(bytes); memcpy(p, payload, bytes); n.a = (const Id *)p; } else n.a = nullptr;
    computeInfo(n);
    Id id = nodes.size();
    if (id >= 0xfffffff0u || id > 180000000u) throw Unsupported("term table overflow");
    if (n.supp == 0xfffffffdu) n.supp = id;  // "self"
    nodes.push_back(n);
    table.emplace(h, id);
    return id;
}
static const Id SUPP_SELF = 0xfffffffdu;
u128 TermDB::rone(unsigned w) const { if (w == W_REAL) { double d = 1; uint64_t b; memcpy(&b, &d, 8); return b; } return 1; }
static double d_(u128 a) { uint64_t b = (uint64_t)a; double d; memcpy(&d, &b, 8); return d; }
static u128 b_(double d) { if (d == 0) d = 0; uint64_t b; memcpy(&b, &d, 8); return b; }
static uint64_t modOf(unsigned w) { return w == W_ZP ? ZP_P : g_ringR; }
u128 TermDB::radd(unsigned w, u128 a, u128 b) const
{
    if (w == W_REAL) return b_(d_(a) + d_(b));
    if (w == W_ZP || w == W_ZR) return (a + b) % modOf(w);
    return (a + b) & rmask(w);
}
u128 TermDB::rmul(unsigned w, u128 a, u128 b) const
{
    if (w == W_REAL) return b_(d_(a) * d_(b));
    if (w == W_ZP || w == W_ZR) return (a * b) % modOf(w);
    return (a * b) & rmask(w);
}
u128 TermDB::rneg(unsigned w, u128 a) const
{
    if (w == W_REAL) return b_(-d_(a));
    if (w == W_ZP || w == W_ZR) return a == 0 ? 0 : modOf(w) - a;
    return (~a + 1) & rmask(w);
}
bool TermDB::rzero(unsigned w, u128 a) const { return w == W_REAL ? d_(a) == 0 : a == 0; }
i128 TermDB::sgn(unsigned w, u128 v) const
{
    if (w >= 128) return (i128)v;
    if (v >> (w - 1) & 1) return (i128)(v | ~rmask(w));
    return (i128)v;
}
Id TermDB::cst(unsigned w, u128 v)
{
    Node n{}; n.op = O_CONST; n.w = w;
    n.k = isBits(w) ? (v & rmask(w)) : v;
    return intern(n, nullptr, 0);
}
Id TermDB::real(double d) { return cst(W_REAL, b_(d)); }
Id TermDB::sym(unsigned w, const std::string &name, bool ranged, i128 lo, i128 hi)
{
    syms.push_back({name, ranged, lo, hi, w});
    Node n{}; n.op = O_SYM; n.w = w; n.k = syms.size() - 1;
    return intern(n, nullptr, 0);
}
Id TermDB::bsym(unsigned w, const std::string &name, bool ranged, i128 lo, i128 hi)
{
    syms.push_back({name, ranged, lo, hi, w});
    Node n{}; n.op = B_SYM; n.w = W_BLOCK; n.k = (u128)(syms.size() - 1) | ((u128)w << 64);
    return intern(n, nullptr, 0);
}
uint32_t TermDB::ufId(const std::string &s)
{
    auto it = ufNames.find(s);
    if (it != ufNames.end()) return it->second;
    uint32_t i = ufList.size(); ufList.push_back(s); ufNames[s] = i; return i;
}
Id TermDB::nodeN(Op op, unsigned w, u128 k, const std::vector<Id> &args)
{
    Node n{}; n.op = op; n.w = w; n.k = k; n.n = args.size();
    return intern(n, args.data(), args.size() * sizeof(Id));
}
static bool mulOv(i128 a, i128 b, i128 &r) { return __builtin_mul_overflow(a, b, &r); }
static bool addOv(i128 a, i128 b, i128 &r) { return __builtin_add_overflow(a, b, &r); }

static void fixRange(Node &n)
{
    unsigned w = n.w;
    u128 full = w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1);
    u128 half = (u128)1 << (w - 1);
    i128 smin = w >= 128 ? (i128)half : -(i128)half, smax = (i128)(half - 1);
    if (n.slo > n.shi) { n.slo = smin; n.shi = smax; }
    if (n.slo >= 0) { n.ulo = std::max(n.ulo, (u128)n.slo); n.uhi = std::min(n.uhi, (u128)n.shi); }
    else if (n.shi < 0) { n.ulo = std::max(n.ulo, (u128)n.slo & full); n.uhi = std::min(n.uhi, (u128)n.shi & full); }
    if (n.uhi < half) { n.slo = std::max(n.slo, (i128)n.ulo); n.shi = std::min(n.shi, (i128)n.uhi); }
    else if (n.ulo >= half) {
        n.slo = std::max(n.slo, w >= 128 ? (i128)n.ulo : (i128)n.ulo - (i128)((u128)1 << w));
        n.shi = std::min(n.shi, w >= 128 ? (i128)n.uhi : (i128)n.uhi - (i128)((u128)1 << w));
    }
}
// integer range of polynomial using unsigned (u) or signed atom values
static bool polyRange(const Node &p, bool useU, i128 &lo, i128 &hi)
{
    lo = hi = D.sgn(p.w, p.k);
    for (uint32_t i = 0; i < p.n; i++) {
        const Node &m = D[p.t[i].m];
        i128 c = D.sgn(p.w, p.t[i].c), a, b;
        i128 ml, mh;
        if (useU) { if (m.uhi >> 127) return false; ml = (i128)m.ulo; mh = (i128)m.uhi; }
        else { ml = m.slo; mh = m.shi; }
        if (mulOv(c, ml, a) || mulOv(c, mh, b)) return false;
        if (a > b) std::swap(a, b);
        if (addOv(lo, a, lo) || addOv(hi, b, hi)) return false;
    }
    return true;
}
void TermDB::computeInfo(Node &n)
{
    n.flags = 0; n.supp = SUPP_NONE;
    unsigned w = n.w;
    if (isBits(w)) {
        n.ulo = 0; n.uhi = rmask(w);
        u128 half = (u128)1 << (w - 1);
        n.slo = w >= 128 ? (i128)half : -(i128)half; n.shi = (i128)(half - 1);
    }
    else { n.ulo = 0; n.uhi = ~(u128)0; n.slo = 0; n.shi = -1; }
    bool leaf = false;
    switch (n.op) {
    case O_CONST:
        if (isBits(w)) { n.ulo = n.uhi = n.k; n.slo = n.shi = sgn(w, n.k); }
        return;
    case O_KV: n.ulo = 0; n.uhi = (1 << 20) - 1; n.supp = SUPP_MANY; n.flags = 1; fixRange(n); return;
    case O_SYM: {
        auto &s = syms[(size_t)n.k];
        if (s.ranged && isBits(w)) {
            if (s.lo < 0) { n.slo = s.lo; n.shi = s.hi; } else { n.ulo = (u128)s.lo; n.uhi = (u128)s.hi; }
        }
        leaf = true; break;
    }
    case B_SYM: n.supp = SUPP_MANY; return;
    default: break;
    }
    if (n.op == O_POLY) {
        for (uint32_t i = 0; i < n.n; i++) n.flags |= nodes[n.t[i].m].flags & 1;
        Id s = SUPP_NONE;
        for (uint32_t i = 0; i < n.n && s != SUPP_MANY; i++) {
            Id x = nodes[n.t[i].m].supp;
            if (x == SUPP_NONE) continue;
            if (s == SUPP_NONE) s = x; else if (s != x) s = SUPP_MANY;
        }
        n.supp = s;
        if (isBits(w)) {
            i128 lo, hi, umax, smin = n.slo, smax = n.shi;
            umax = (i128)(w >= 127 ? (~(u128)0 >> 1) : rmask(w));
            for (int u = 0; u < 2; u++)
                if (polyRange(n, u, lo, hi)) {
                    if (lo >= 0 && hi <= umax) { n.ulo = std::max(n.ulo, (u128)lo); n.uhi = std::min(n.uhi, (u128)hi); }
                    if (lo >= smin && hi <= smax) { n.slo = std::max(n.slo, lo); n.shi = std::min(n.shi, hi); }
                }
            fixRange(n);
        }
        return;
    }
    bool argsAreIds = n.op != B_PW;
    if (argsAreIds) {
        Id s = SUPP_NONE;
        for (uint32_t i = 0; i < n.n; i++) {
            const Node &x = nodes[n.a[i]];
            if (!(n.op == B_LAM)) n.flags |= x.flags & 1;
            if (x.supp == SUPP_NONE) continue;
            if (s == SUPP_NONE) s = x.supp; else if (s != x.supp) s = SUPP_MANY;
        }
        n.supp = s;
    }
    else {
        for (uint32_t i = 1; i < n.n; i += 3) n.flags |= nodes[n.a[i]].flags & 1;
        n.supp = SUPP_MANY;
    }
    auto A = [&](int i) -> const Node & { return nodes[n.a[i]]; };
    switch (n.op) {
    case O_MONO:
        if (isBits(w)) {
            i128 lo = 1, hi = 1; bool ok = true;
            for (uint32_t i = 0; i < n.n && ok; i++) {
                const Node &x = A(i);
                i128 xs[2] = {x.slo, x.shi}, r, nl = 0, nh = 0; bool first = true;
                for (int p = 0; p < 2 && ok; p++)
                    for (int q = 0; q < 2; q++) {
                        if (mulOv(p ? hi : lo, xs[q], r)) { ok = false; break; }
                        if (first || r < nl) nl = r;
                        if (first || r > nh) nh = r;
                        first = false;
                    }
                lo = nl; hi = nh;
            }
            if (ok && lo >= n.slo && hi <= n.shi) { n.slo = lo; n.shi = hi; }
            // unsigned
            u128 p = 1; ok = true;
            for (uint32_t i = 0; i < n.n && ok; i++)
                if (__builtin_mul_overflow(p, A(i).uhi, &p)) ok = false;
            if (ok && p <= rmask(w)) { n.uhi = p; u128 q = 1; for (uint32_t i = 0; i < n.n; i++) q *= A(i).ulo; n.ulo = q; }
        }
        break;
    case O_BIG: if (isBits(w)) { n.ulo = A(0).ulo; n.uhi = A(0).uhi; n.slo = A(0).slo; n.shi = A(0).shi; } break;
    case O_IND: n.ulo = 0; n.uhi = 1; n.slo = 0; n.shi = 1; break;
    case O_ZEXT: n.ulo = A(0).ulo; n.uhi = A(0).uhi; n.slo = 0; n.shi = (i128)n.uhi; break;
    case O_SEXT: n.slo = A(0).slo; n.shi = A(0).shi; break;
    case O_EXTRACT:
        if (isBits(w) && A(0).w <= 128) {
            u128 h = A(0).uhi >> (unsigned)n.k;
            if (h <= rmask(w)) { n.uhi = h; n.ulo = A(0).ulo >> (unsigned)n.k; }
            if (n.supp == SUPP_MANY) leaf = true;
        }
        break;
    case O_AND: n.uhi = std::min(A(0).uhi, A(1).uhi); break;
    case O_UDIV: n.uhi = A(1).ulo ? A(0).uhi / A(1).ulo : A(0).uhi; if (A(1).uhi) n.ulo = A(0).ulo / A(1).uhi; break;
    case O_UREM: n.uhi = std::min(A(0).uhi, A(1).uhi ? A(1).uhi - 1 : A(1).uhi); break;
    case O_LSHR: n.uhi = A(0).uhi; break;
    case O_ASHR: n.slo = std::min<i128>(A(0).slo, 0); n.shi = std::max<i128>(A(0).shi, 0); break;
    case O_SDIV: if (A(1).slo > 0) { n.slo = std::min<i128>(A(0).slo, 0); n.shi = std::max<i128>(A(0).shi, 0); } break;
    case O_SREM: if (A(1).slo > 0) { n.slo = A(0).slo >= 0 ? 0 : 1 - A(1).shi; n.shi = A(0).shi < 0 ? 0 : A(1).shi - 1; } break;
    case O_OR: case O_XOR: {
        u128 m = A(0).uhi | A(1).uhi; for (int s = 1; s < 128; s <<= 1) m |= m >> s;
        n.uhi = m; if (n.op == O_OR) n.ulo = std::max(A(0).ulo, A(1).ulo); break;
    }
    case O_SEL: {
        const Node &b = A(0);
        if (b.op == B_SYM) {
            auto &s = syms[(size_t)(uint64_t)b.k];
            if (s.ranged && isBits(w)) { if (s.lo < 0) { n.slo = s.lo; n.shi = s.hi; } else { n.ulo = (u128)s.lo; n.uhi = (u128)s.hi; } }
        }
        leaf = true; break;
    }
    case O_UFS: leaf = true; break;
    case O_FROMRING: if (n.a && A(0).w == W_ZP) n.uhi = ZP_P - 1; break;
    default: break;
    }
    if (isBits(w)) fixRange(n);
    if (n.op == O_SEL || n.op == O_UFS || n.op == O_SYM) n.supp = SUPP_MANY;
    if (leaf && isBits(w) && (n.uhi - n.ulo <= 15 || (u128)(n.shi - n.slo) <= 15) && !(n.op == O_SEL && (n.flags & 1) && false)) n.supp = SUPP_SELF;
}
void TermDB::terms(Id x, u128 &k, const Term *&t, uint32_t &n, Term &tmp) const
{
    const Node &a = nodes[x];
    if (a.op == O_CONST) { k = a.k; t = nullptr; n = 0; }
    else if (a.op == O_POLY) { k = a.k; t = a.t; n = a.n; }
    else { k = 0; tmp = {rone(a.w), x}; t = &tmp; n = 1; }
}
Id TermDB::poly(unsigned w, u128 k, std::vector<Term> &t)
{
    if (t.empty()) return cst(w, k);
    if (t.size() == 1 && rzero(w, k) && t[0].c == rone(w)) return t[0].m;
    Node n{}; n.op = O_POLY; n.w = w; n.k = k; n.n = t.size();
    for (auto &x : t) if (sizeof(Term) == 32) { /* clear padding */ Term y; memset(&y, 0, sizeof y); y.c = x.c; y.m = x.m; memcpy((void *)&x, &y, sizeof y); }
    return intern(n, t.data(), t.size() * sizeof(Term));
}
static Id bigWrap(Id x)
{
    if (D[x].op != O_POLY) return x;
    return D.nodeN(O_BIG, D[x].w, 0, {x});
}
Id TermDB::add(Id a, Id b)
{
    unsigned w = nodes[a].w;
    if (w != nodes[b].w) throw Unsupported("width mismatch in add");
    if (w == 1) return bxor(a, b);
    if (isC(a) && isC(b)) return cst(w, radd(w, cv(a), cv(b)));
    if (isC(a) && rzero(w, cv(a))) return b;
    if (isC(b) && rzero(w, cv(b))) return a;
    if (w == W_BLOCK || w == W_AGG) throw Unsupported("add on block");
    u128 ka, kb; const Term *ta, *tb; uint32_t na, nb; Term tma, tmb;
    terms(a, ka, ta, na, tma); terms(b, kb, tb, nb, tmb);
    // cancel BIG(b) against -b etc.
    for (int side = 0; side < 2; side++) {
        const Term *t = side ? tb : ta; uint32_t n = side ? nb : na; Id other = side ? a : b;
        if (nodes[other].op != O_POLY) continue;
        for (uint32_t i = 0; i < n; i++) {
            const Node &m = nodes[t[i].m];
            if (m.op != O_BIG) continue;
            Id inner = m.a[0];
            bool canc = false;
            if (t[i].c == rneg(w, rone(w)) && inner == other) canc = true;
            else if (t[i].c == rone(w) && nodes[inner].n == nodes[other].n) {
                // other == -inner ?
                const Node &p = nodes[inner], &q = nodes[other]; bool ok = radd(w, p.k, q.k) == 0 || rzero(w, radd(w, p.k, q.k));
                for (uint32_t j = 0; ok && j < p.n; j++) ok = p.t[j].m == q.t[j].m && rzero(w, radd(w, p.t[j].c, q.t[j].c));
                canc = ok;
            }
            if (canc) {
                std::vector<Term> r; for (uint32_t j = 0; j < n; j++) if (j != i) r.push_back(t[j]);
                return poly(w, side ? kb : ka, r);
            }
        }
    }
    std::vector<Term> r; r.reserve(na + nb);
    uint32_t i = 0, j = 0;
    while (i < na || j < nb) {
        if (j >= nb || (i < na && ta[i].m < tb[j].m)) r.push_back(ta[i++]);
        else if (i >= na || tb[j].m < ta[i].m) r.push_back(tb[j++]);
        else {
            u128 c = radd(w, ta[i].c, tb[j].c);
            if (!rzero(w, c)) r.push_back({c, ta[i].m});
            i++; j++;
        }
    }
    if (r.size() > polyCap && na + nb > polyCap) {
        Id big = na >= nb ? a : b, sm = na >= nb ? b : a;
        if (nodes[big].n >= polyCap) {
            Id bw = bigWrap(big);
            std::vector<Term> rr; u128 ks = 0; const Term *ts; uint32_t ns; Term tmp;
            terms(sm, ks, ts, ns, tmp);
            for (uint32_t q = 0; q < ns; q++) rr.push_back(ts[q]);
            bool done = false;
            for (auto &x : rr) if (x.m == bw) { x.c = radd(w, x.c, rone(w)); done = true; }
            if (!done) rr.push_back({rone(w), bw});
            rr.erase(std::remove_if(rr.begin(), rr.end(), [&](Term &x) { return rzero(w, x.c); }), rr.end());
            std::sort(rr.begin(), rr.end(), [](const Term &x, const Term &y) { return x.m < y.m; });
            return poly(w, ks, rr);
        }
    }
    return poly(w, radd(w, ka, kb), r);
}
Id TermDB::scale(Id a, u128 c)
{
    unsigned w = nodes[a].w;
    if (w == 1) return (c & 1) ? a : FALSE_;
    if (rzero(w, c)) return cst(w, w == W_REAL ? b_(0) : 0);
    if (c == rone(w)) return a;
    u128 k; const Term *t; uint32_t n; Term tm;
    terms(a, k, t, n, tm);
    std::vector<Term> r;
    for (uint32_t i = 0; i < n; i++) { u128 d = rmul(w, t[i].c, c); if (!rzero(w, d)) r.push_back({d, t[i].m}); }
    return poly(w, rmul(w, k, c), r);
}
Id TermDB::neg(Id a) { return scale(a, rneg(nodes[a].w, rone(nodes[a].w))); }
Id TermDB::sub(Id a, Id b)
{
    if (a == b) return cst(nodes[a].w, 0);
    return add(a, neg(b));
}
static bool idem(Id x)
{
    const Node &n = D[x];
    if (n.op == O_IND) return true;
    return isBits(n.w) && n.w > 1 && n.ulo == 0 && n.uhi == 1;
}
Id TermDB::monoMul(Id a, Id b, unsigned w, bool &zero)
{
    zero = false;
    Id bufa[1] = {a}, bufb[1] = {b};
    const Id *pa = bufa, *pb = bufb; uint32_t na = 1, nb = 1;
    if (nodes[a].op == O_MONO) { pa = nodes[a].a; na = nodes[a].n; }
    if (nodes[b].op == O_MONO) { pb = nodes[b].a; nb = nodes[b].n; }
    std::vector<Id> r; r.reserve(na + nb);
    uint32_t i = 0, j = 0;
    while (i < na || j < nb) {
        if (j >= nb || (i < na && pa[i] <= pb[j])) {
            if (i < na && j < nb && pa[i] == pb[j] && idem(pa[i])) { i++; continue; }
            r.push_back(pa[i++]);
        }
        else r.push_back(pb[j++]);
    }
    // exclusive indicators on the same small leaf:  IND(X==u)*IND(X==v) = 0
    for (size_t p = 0; p < r.size(); p++) {
        const Node &x = nodes[r[p]];
        if (x.op != O_IND || nodes[x.a[0]].op != O_EQ0) continue;
        Id sp = x.supp; if (sp == SUPP_MANY || sp == SUPP_NONE) continue;
        for (size_t q = p + 1; q < r.size(); q++) {
            const Node &y = nodes[r[q]];
            if (y.op == O_IND && nodes[y.a[0]].op == O_EQ0 && y.supp == sp) { zero = true; return 0; }
        }
    }
    if (r.size() == 1) return r[0];
    return nodeN(O_MONO, w, 0, r);
}
Id TermDB::mul(Id a, Id b)
{
    unsigned w = nodes[a].w;
    if (w != nodes[b].w) throw Unsupported("width mismatch in mul");
    if (w == 1) return band(a, b);
    if (isC(a)) return scale(b, cv(a));
    if (isC(b)) return scale(a, cv(b));
    u128 ka, kb; const Term *ta, *tb; uint32_t na, nb; Term tma, tmb;
    terms(a, ka, ta, na, tma); terms(b, kb, tb, nb, tmb);
    if ((size_t)na * nb > 256) {
        // too large to distribute eagerly: keep as product of BIG atoms, unless
        // one side is a single monomial
        Id x = na > 1 || !rzero(w, ka) ? bigWrap(a) : a, y = nb > 1 || !rzero(w, kb) ? bigWrap(b) : b;
        bool z; Id m = monoMul(x, y, w, z);
        return z ? cst(w, 0) : m;
    }
    std::map<Id, u128> acc; u128 k = rmul(w, ka, kb);
    auto put = [&](Id m, u128 c) {
        if (rzero(w, c)) return;
        auto it = acc.find(m);
        if (it == acc.end()) acc[m] = c; else it->second = radd(w, it->second, c);
    };
    std::vector<Term> va(ta, ta + na), vb(tb, tb + nb);
    if (!rzero(w, ka)) for (auto &y : vb) put(y.m, rmul(w, y.c, ka));
    if (!rzero(w, kb)) for (auto &x : va) put(x.m, rmul(w, x.c, kb));
    for (auto &x : va) for (auto &y : vb) {
        bool z; Id m = monoMul(x.m, y.m, w, z);
        if (!z) put(m, rmul(w, x.c, y.c));
    }
    std::vector<Term> r;
    for (auto &p : acc) if (!rzero(w, p.second)) r.push_back({p.second, p.first});
    return poly(w, k, r);
}
Id TermDB::ind(unsigned w, Id c)
{
    if (w == 1) return c;
    if (c == TRUE_) return cst(w, rone(w));
    if (c == FALSE_) return cst(w, 0);
    Node n = nodes[c];
    Id one = cst(w, rone(w));
    if (n.op == O_BNOT) return sub(one, ind(w, n.a[0]));
    Id X = n.supp;
    if (X != SUPP_MANY && X != SUPP_NONE) {
        Node xn = nodes[X];
        if (!(xn.w == 1)) {
            bool useU = xn.uhi - xn.ulo <= 15;
            i128 lo = useU ? (i128)xn.ulo : xn.slo, hi = useU ? (i128)xn.uhi : xn.shi;
            if (lo == hi) { std::unordered_map<Id, u128> env; env[X] = (u128)lo & rmask(xn.w); u128 o; if (ceval(c, env, o)) return o ? one : cst(w, 0); }
            // truth set
            std::vector<i128> S; bool ok = true;
            for (i128 v = lo; v <= hi && ok; v++) {
                std::unordered_map<Id, u128> env; env[X] = (u128)v & rmask(xn.w); u128 o;
                ok = ceval(c, env, o); if (ok && o) S.push_back(v);
            }
            if (ok) {
                bool last = false; Id r = cst(w, 0);
                auto atom = [&](i128 v) -> Id {
                    if (lo == 0 && hi == 1 && isBits(w)) { // indicator of X==1 is X itself
                        Id xv = w >= xn.w ? zext(X, w) : extract(X, 0, w);
                        return v == 1 ? xv : sub(one, xv);
                    }
                    Id d = sub(X, cst(xn.w, (u128)v & rmask(xn.w)));
                    Id e = nodeN(O_EQ0, 1, 0, {d});
                    return nodeN(O_IND, w, 0, {e});
                };
                for (auto v : S) if (v == hi) last = true; else r = add(r, atom(v));
                if (last) {
                    if (lo == 0 && hi == 1 && isBits(w)) r = add(r, atom(1));
                    else { Id o = one; for (i128 v = lo; v < hi; v++) o = sub(o, atom(v)); r = add(r, o); }
                }
                return r;
            }
        }
    }
    if (n.op == O_BAND) return mul(ind(w, n.a[0]), ind(w, n.a[1]));
    if (n.op == O_BXOR) { Id a = ind(w, n.a[0]), b = ind(w, n.a[1]); Id ab = mul(a, b); return sub(add(a, b), add(ab, ab)); }
    return nodeN(O_IND, w, 0, {c});
}
Id TermDB::ite(Id c, Id a, Id b)
{
    if (c == TRUE_) return a;
    if (c == FALSE_) return b;
    if (a == b) return a;
    unsigned w = nodes[a].w;
    if (w == 1) return bor(band(c, a), band(bnot(c), b));
    if (nodes[a].op == O_PTR && nodes[b].op == O_PTR) {
        if (nodes[a].k == nodes[b].k) return nodeN(O_PTR, 64, nodes[a].k, {ite(c, nodes[a].a[0], nodes[b].a[0])});
        throw Unsupported("ite over pointers to different objects");
    }
    if (nodes[a].op == O_PTR || nodes[b].op == O_PTR || nodes[a].op == O_FN || nodes[b].op == O_FN) throw Unsupported("ite over pointer and non-pointer");
    if (w == W_AGG) {
        std::vector<Id> r; Node x = nodes[a], y = nodes[b];
        for (uint32_t i = 0; i < x.n; i++) r.push_back(ite(c, x.a[i], y.a[i]));
        return nodeN(O_AGG, W_AGG, 0, r);
    }
    if (w == W_BLOCK) throw Unsupported("ite over blocks");
    return add(b, mul(ind(w, c), diffCancel(a, b)));
}
// a - b, opening shared wrapped sums so that they cancel
Id TermDB::diffCancel(Id a, Id b)
{
    Id d = sub(a, b); unsigned w = nodes[d].w; const Node n = nodes[d];
    if (n.op != O_POLY) return d;
    bool big = false; for (uint32_t i = 0; i < n.n; i++) big |= nodes[n.t[i].m].op == O_BIG;
    if (!big) return d;
    std::map<Id, u128, std::greater<Id>> pend; std::map<Id, u128> acc; u128 k = n.k;
    auto put = [&](Id m, u128 c) {
        bool bg = nodes[m].op == O_BIG && nodes[nodes[m].a[0]].op == O_POLY; u128 &p = bg ? pend[m] : acc.try_emplace(m, (u128)0).first->second;
        p = radd(w, p, c); if (rzero(w, p)) { if (bg) pend.erase(m); else acc.erase(m); }
    };
    for (uint32_t i = 0; i < n.n; i++) put(n.t[i].m, n.t[i].c);
    while (!pend.empty()) {
        auto it = pend.begin(); Id p = nodes[it->first].a[0]; u128 c = it->second; pend.erase(it);
        const Node q = nodes[p]; k = radd(w, k, rmul(w, q.k, c));
        for (uint32_t i = 0; i < q.n; i++) { u128 cc = rmul(w, q.t[i].c, c); if (!rzero(w, cc)) put(q.t[i].m, cc); }
        if (acc.size() > 96) return d;
    }
    if (acc.size() > 48) return d;
    std::vector<Term> r; for (auto &p : acc) r.push_back({p.second, p.first});
    return poly(w, k, r);
}
static unsigned tz(u128 v) { unsigned r = 0; if (!v) return 128; while (!(v & 1)) { v >>= 1; r++; } return r; }

static Id extWith(Id p, unsigned w, bool u)
{
    Node n = D[p];
    Id r = D.cst(w, (u128)D.sgn(n.w, n.k));
    for (uint32_t i = 0; i < n.n; i++) {
        i128 c = D.sgn(n.w, n.t[i].c);
        Id m = n.t[i].m;
        r = D.add(r, D.scale(u ? D.zext(m, w) : D.sext(m, w), (u128)c & D.rmask(w)));
    }
    return r;
}
Id TermDB::zext(Id x, unsigned w)
{
    Node n = nodes[x];
    if (n.w == w) return x;
    if (n.w > w) throw Unsupported("zext narrower");
    if (n.w == 1) return ind(w, x);
    switch (n.op) {
    case O_CONST: return cst(w, n.k);
    case O_ZEXT: return zext(n.a[0], w);
    case O_IND: return ind(w, n.a[0]);
    case O_EXTRACT:
        if (n.k == 0) {
            const Node &y = nodes[n.a[0]];
            if (y.w == w && y.uhi <= rmask(n.w)) return n.a[0];
            if (y.w < w && y.uhi <= rmask(n.w)) return zext(n.a[0], w);
        }
        break;
    case O_POLY: {
        i128 lo, hi, um = (i128)(n.w >= 127 ? (~(u128)0 >> 1) : rmask(n.w));
        if (polyRange(n, true, lo, hi) && lo >= 0 && hi <= um) return extWith(x, w, true);
        if (polyRange(n, false, lo, hi) && lo >= 0 && hi <= um) return extWith(x, w, false);
        break;
    }
    case O_MONO: {
        u128 p = 1; bool ok = true;
        for (uint32_t i = 0; i < n.n && ok; i++) ok = !__builtin_mul_overflow(p, nodes[n.a[i]].uhi, &p);
        if (ok && p <= rmask(n.w)) { Id r = zext(n.a[0], w); for (uint32_t i = 1; i < n.n; i++) r = mul(r, zext(n.a[i], w)); return r; }
        break;
    }
    default: break;
    }
    if (n.slo >= 0 && n.op == O_SEXT) return zext(n.a[0], w);
    return nodeN(O_ZEXT, w, 0, {x});
}
Id TermDB::sext(Id x, unsigned w)
{
    Node n = nodes[x];
    if (n.w == w) return x;
    if (n.w > w) throw Unsupported("sext narrower");
    if (n.w == 1) return neg(ind(w, x));
    if (n.slo >= 0) return zext(x, w);
    switch (n.op) {
    case O_CONST: return cst(w, (u128)sgn(n.w, n.k));
    case O_SEXT: return sext(n.a[0], w);
    case O_POLY: {
        i128 lo, hi; u128 half = (u128)1 << (n.w - 1);
        if (n.w < 128) {
            if (polyRange(n, true, lo, hi) && lo >= -(i128)half && hi < (i128)half) return extWith(x, w, true);
            if (polyRange(n, false, lo, hi) && lo >= -(i128)half && hi < (i128)half) return extWith(x, w, false);
        }
        break;
    }
    case O_EXTRACT:
        if (n.k == 0) {
            const Node &y = nodes[n.a[0]]; u128 half = (u128)1 << (n.w - 1);
            if (y.w == w && y.slo >= -(i128)half && y.shi < (i128)half) return n.a[0];
        }
        break;
    case O_MONO: {
        // product of signed values that provably does not overflow
        i128 lo = 1, hi = 1; bool ok = true; i128 half = (i128)((u128)1 << (n.w - 1));
        for (uint32_t i = 0; i < n.n && ok; i++) {
            const Node &y = nodes[n.a[i]]; i128 r[4];
            ok = !mulOv(lo, y.slo, r[0]) && !mulOv(lo, y.shi, r[1]) && !mulOv(hi, y.slo, r[2]) && !mulOv(hi, y.shi, r[3]);
            if (ok) { lo = *std::min_element(r, r + 4); hi = *std::max_element(r, r + 4); }
        }
        if (ok && n.w < 128 && lo >= -half && hi < half) { Id r = sext(n.a[0], w); for (uint32_t i = 1; i < n.n; i++) r = mul(r, sext(n.a[i], w)); return r; }
        break;
    }
    default: break;
    }
    return nodeN(O_SEXT, w, 0, {x});
}
Id TermDB::extract(Id x, unsigned lo, unsigned w)
{
    Node n = nodes[x];
    if (n.w == w && lo == 0) return x;
    if (!isBits(n.w)) throw Unsupported("extract on non-bitvector");
    if (lo + w > n.w) throw Unsupported("extract out of range");
    if (n.op == O_CONST) return cst(w, n.k >> lo);
    if (lo && n.uhi <= rmask(lo)) return cst(w, 0);
    switch (n.op) {
    case O_EXTRACT: return extract(n.a[0], lo + (unsigned)n.k, w);
    case O_ZEXT: {
        unsigned iw = nodes[n.a[0]].w;
        if (lo >= iw) return cst(w, 0);
        if (lo + w <= iw) return extract(n.a[0], lo, w);
        return zext(extract(n.a[0], lo, iw - lo), w);
    }
    case O_SEXT: {
        unsigned iw = nodes[n.a[0]].w;
        if (lo + w <= iw) return extract(n.a[0], lo, w);
        if (lo < iw) return sext(extract(n.a[0], lo, iw - lo), w);
        return sext(extract(n.a[0], iw - 1, 1), w);
    }
    case O_IND: return lo ? cst(w, 0) : (w == 1 ? n.a[0] : ind(w, n.a[0]));
    case O_POLY: {
        if (lo == 0) {
            if (w == 1) { // parity: keep as boolean atom on truncated poly when possible
                Id r = (n.k & 1) ? TRUE_ : FALSE_;
                for (uint32_t i = 0; i < n.n; i++) if (n.t[i].c & 1) r = bxor(r, extract(n.t[i].m, 0, 1));
                return r;
            }
            Id r = cst(w, n.k);
            std::vector<Term> tt;
            for (uint32_t i = 0; i < n.n; i++) { u128 c = n.t[i].c & rmask(w); if (c) r = add(r, scale(extract(n.t[i].m, 0, w), c)); }
            return r;
        }
        if (lo + w < n.w) return extract(extract(x, 0, lo + w), lo, w);
        // split into multiples of 2^lo and a remainder provably in [0,2^lo)
        {
            std::vector<Term> hi, rest;
            for (uint32_t i = 0; i < n.n; i++) (tz(n.t[i].c) >= lo ? hi : rest).push_back(n.t[i]);
            if (!hi.empty() || rest.size() != n.n || true) {
                // constant: choose low part nonneg
                u128 klow = n.k & rmask(lo), khigh = n.k >> lo;
                Node pr{}; pr.op = O_POLY; pr.w = n.w; pr.k = 0; pr.n = rest.size(); pr.t = rest.data();
                i128 a, b; bool ok = false; u128 kl = klow; i128 carry = 0;
                if (rest.empty()) ok = true;
                else if (polyRange(pr, true, a, b)) {
                    i128 base = (i128)klow;
                    if (lo < 120) {
                        i128 L = a + base, H = b + base, M = (i128)1 << lo;
                        i128 q1 = L >= 0 ? L / M : -((-L + M - 1) / M), q2 = H >= 0 ? H / M : -((-H + M - 1) / M);
                        if (q1 == q2) { ok = true; carry = q1; }
                    }
                }
                (void)kl;
                if (ok && (rest.size() < n.n || rest.empty())) {
                    Id r = cst(w, khigh + (u128)carry);
                    for (auto &t : hi) r = add(r, scale(extract(t.m, 0, w), (t.c >> lo) & rmask(w)));
                    return r;
                }
            }
        }
        // common power of two
        unsigned z = n.k ? tz(n.k) : 128;
        for (uint32_t i = 0; i < n.n; i++) z = std::min(z, tz(n.t[i].c));
        if (z > 0 && z < 128) {
            unsigned zz = std::min(z, lo);
            unsigned nw = n.w - zz;
            Id r = cst(nw, n.k >> zz);
            for (uint32_t i = 0; i < n.n; i++) r = add(r, scale(extract(n.t[i].m, 0, nw), n.t[i].c >> zz));
            return extract(r, lo - zz, w);
        }
        break;
    }
    case O_MONO:
        if (lo == 0) { Id r = extract(n.a[0], 0, w); for (uint32_t i = 1; i < n.n; i++) r = w == 1 ? band(r, extract(n.a[i], 0, 1)) : mul(r, extract(n.a[i], 0, w)); return r; }
        if (lo + w < n.w) return extract(extract(x, 0, lo + w), lo, w);
        break;
    case O_BIG: {
        static std::unordered_map<uint64_t, Id> memo;
        uint64_t key = ((uint64_t)x << 16) | (lo << 8) | w;
        if (lo == 0) {
            auto it = memo.find(key); if (it != memo.end()) return it->second;
            Id r = extract(n.a[0], 0, w);
            if (nodes[r].op == O_POLY && w != 1) r = nodeN(O_BIG, w, 0, {r});
            memo[key] = r; return r;
        }
        return extract(n.a[0], lo, w);
    }
    case O_AND: case O_OR: case O_XOR: {
        Id a = extract(n.a[0], lo, w), b = extract(n.a[1], lo, w);
        return n.op == O_AND ? and_(a, b) : n.op == O_OR ? or_(a, b) : xor_(a, b);
    }
    default: break;
    }
    return nodeN(O_EXTRACT, w, lo, {x});
}
Id TermDB::concat(Id hi, Id lo)
{
    unsigned wh = nodes[hi].w, wl = nodes[lo].w, w = wh + wl;
    if (w > 128) throw Unsupported("concat wider than 128");
    Node h = nodes[hi], l = nodes[lo];
    if (h.op == O_EXTRACT && l.op == O_EXTRACT && h.a[0] == l.a[0] && (unsigned)h.k == (unsigned)l.k + wl) return extract(h.a[0], (unsigned)l.k, w);
    if (l.op != O_EXTRACT && h.op == O_EXTRACT && h.a[0] == lo && false) return lo;
    return add(scale(zext(hi, w), (u128)1 << wl), zext(lo, w));
}
Id TermDB::and_(Id a, Id b)
{
    unsigned w = nodes[a].w;
    if (w == 1) return band(a, b);
    if (a == b) return a;
    if (isC(a)) std::swap(a, b);
    if (isC(b)) {
        u128 m = cv(b);
        if (isC(a)) return cst(w, cv(a) & m);
        if (m == 0) return b;
        if (m == rmask(w)) return a;
        unsigned lo = tz(m); u128 mm = m >> lo; unsigned len = 0; while (len < 128 && (mm >> len) & 1) len++;
        if (len < 128 ? (mm >> len) == 0 : true) return shl(zext(extract(a, lo, len), w), cst(w, lo));
        // known-small value
        if (nodes[a].uhi <= rmask(w)) {
            // split the mask into contiguous runs
            Id r = cst(w, 0); u128 rem = m; int runs = 0;
            while (rem) { unsigned l0 = tz(rem); u128 q = rem >> l0; unsigned ln = 0; while (ln < 128 && (q >> ln) & 1) ln++; u128 run = rmask(ln) << l0; rem &= ~run; runs++; r = add(r, and_(a, cst(w, run))); }
            return r;
        }
    }
    if (idem(a) && idem(b)) return mul(a, b);
    if (a > b) std::swap(a, b);
    return nodeN(O_AND, w, 0, {a, b});
}
static bool disjoint(Id a, Id b)
{
    // a multiple of 2^k and b < 2^k
    for (int s = 0; s < 2; s++, std::swap(a, b)) {
        u128 k; const Term *t; uint32_t n; Term tm;
        D.terms(a, k, t, n, tm);
        unsigned z = k ? tz(k) : 128;
        for (uint32_t i = 0; i < n; i++) z = std::min(z, tz(t[i].c));
        if (z >= 128 || D[b].uhi <= D.rmask(z)) return true;
    }
    return false;
}
Id TermDB::or_(Id a, Id b)
{
    unsigned w = nodes[a].w;
    if (w == 1) return bor(a, b);
    if (a == b) return a;
    if (isC(a)) std::swap(a, b);
    if (isC(b)) {
        if (isC(a)) return cst(w, cv(a) | cv(b));
        if (cv(b) == 0) return a;
        if (cv(b) == rmask(w)) return b;
        return add(and_(a, cst(w, ~cv(b))), b);
    }
    if (disjoint(a, b)) return add(a, b);
    if (idem(a) && idem(b)) return sub(add(a, b), mul(a, b));
    if (a > b) std::swap(a, b);
    return nodeN(O_OR, w, 0, {a, b});
}
Id TermDB::xor_(Id a, Id b)
{
    unsigned w = nodes[a].w;
    if (w == 1) return bxor(a, b);
    if (a == b) return cst(w, 0);
    if (isC(a)) std::swap(a, b);
    if (isC(b)) {
        if (isC(a)) return cst(w, cv(a) ^ cv(b));
        if (cv(b) == 0) return a;
        if (cv(b) == rmask(w)) return sub(cst(w, rmask(w)), a);
        // x ^ c = (x & ~c) + (c - (x & c))
        return add(and_(a, cst(w, ~cv(b))), sub(b, and_(a, b)));
    }
    if (disjoint(a, b)) return add(a, b);
    if (idem(a) && idem(b)) { Id m = mul(a, b); return sub(add(a, b), add(m, m)); }
    if (a > b) std::swap(a, b);
    return nodeN(O_XOR, w, 0, {a, b});
}
Id TermDB::shl(Id a, Id b)
{
    unsigned w = nodes[a].w;
    if (isC(b)) { if (cv(b) >= w) throw Unsupported("shift amount out of range"); return scale(a, (u128)1 << (unsigned)cv(b)); }
    if (isC(a) && cv(a) == 0) return a;
    return nodeN(O_SHL, w, 0, {a, b});
}
Id TermDB::lshr(Id a, Id b)
{
    unsigned w = nodes[a].w;
    if (isC(b)) { unsigned s = (unsigned)cv(b); if (cv(b) >= w) throw Unsupported("shift amount out of range"); if (!s) return a; return zext(extract(a, s, w - s), w); }
    if (isC(a) && cv(a) == 0) return a;
    return nodeN(O_LSHR, w, 0, {a, b});
}
Id TermDB::ashr(Id a, Id b)
{
    unsigned w = nodes[a].w;
    if (isC(b)) { unsigned s = (unsigned)cv(b); if (cv(b) >= w) throw Unsupported("shift amount out of range"); if (!s) return a; return sext(extract(a, s, w - s), w); }
    return nodeN(O_ASHR, w, 0, {a, b});
}
Id TermDB::udiv(Id a, Id b)
{
    unsigned w = nodes[a].w;
    if (isC(b)) {
        u128 d = cv(b); if (!d) throw Unsupported("division by zero");
        if (isC(a)) return cst(w, cv(a) / d);
        if ((d & (d - 1)) == 0) return lshr(a, cst(w, tz(d)));
    }
    return nodeN(O_UDIV, w, 0, {a, b});
}
Id TermDB::urem(Id a, Id b)
{
    unsigned w = nodes[a].w;
    if (isC(b)) {
        u128 d = cv(b); if (!d) throw Unsupported("division by zero");
        if (isC(a)) return cst(w, cv(a) % d);
        if ((d & (d - 1)) == 0) return and_(a, cst(w, d - 1));
        if (nodes[a].uhi < d) return a;
    }
    return nodeN(O_UREM, w, 0, {a, b});
}
Id TermDB::sdiv(Id a, Id b)
{
    unsigned w = nodes[a].w;
    if (nodes[a].slo >= 0 && nodes[b].slo >= 0) return udiv(a, b);
    if (isC(a) && isC(b)) { i128 y = sgn(w, cv(b)); if (!y) throw Unsupported("division by zero"); return cst(w, (u128)(sgn(w, cv(a)) / y)); }
    return nodeN(O_SDIV, w, 0, {a, b});
}
Id TermDB::srem(Id a, Id b)
{
    unsigned w = nodes[a].w;
    if (nodes[a].slo >= 0 && nodes[b].slo >= 0) return urem(a, b);
    if (isC(a) && isC(b)) { i128 y = sgn(w, cv(b)); if (!y) throw Unsupported("division by zero"); return cst(w, (u128)(sgn(w, cv(a)) % y)); }
    return nodeN(O_SREM, w, 0, {a, b});
}
static u128 inv2(u128 a) { u128 x = a; for (int i = 0; i < 7; i++) x *= 2 - a * x; return x; }
Id TermDB::eq(Id a, Id b)
{
    if (a == b) return TRUE_;
    Node na = nodes[a], nb = nodes[b];
    if (na.w == 1) return bnot(bxor(a, b));
    bool pa = na.op == O_PTR || na.op == O_FN, pb = nb.op == O_PTR || nb.op == O_FN;
    if (pa || pb) {
        if (na.op == O_PTR && nb.op == O_PTR && na.k == nb.k) return eq(na.a[0], nb.a[0]);
        return FALSE_;
    }
    Id d = sub(a, b);
    Node n = nodes[d];
    if (n.op == O_CONST) return boolc(rzero(n.w, n.k));
    if (!isBits(n.w)) return nodeN(O_EQ0, 1, 0, {d});
    if (na.ulo > nb.uhi || nb.ulo > na.uhi || na.slo > nb.shi || nb.slo > na.shi) return FALSE_;
    if (n.ulo > 0) return FALSE_;
    unsigned w = n.w;
    if (n.op == O_POLY && n.n == 1) {
        u128 c = n.t[0].c, k = rneg(w, n.k); Id x = n.t[0].m;
        unsigned z = tz(c);
        if (z == 0) {
            u128 v = (k * inv2(c)) & rmask(w);
            Node xn = nodes[x];
            if (v < xn.ulo || v > xn.uhi || sgn(w, v) < xn.slo || sgn(w, v) > xn.shi) return FALSE_;
            if (xn.op == O_IND) return v == 1 ? xn.a[0] : v == 0 ? bnot(xn.a[0]) : FALSE_;
            if (xn.op == O_ZEXT) { unsigned iw = nodes[xn.a[0]].w; if (v > rmask(iw)) return FALSE_; return eq(xn.a[0], cst(iw, v)); }
            if (xn.op == O_SEXT) { unsigned iw = nodes[xn.a[0]].w; if ((u128)sgn(iw, v & rmask(iw)) != (u128)sgn(w, v)) return FALSE_; return eq(xn.a[0], cst(iw, v)); }
            d = sub(x, cst(w, v));
            return nodeN(O_EQ0, 1, 0, {d});
        }
        if (k & rmask(z)) return FALSE_;
    }
    if (n.op == O_IND) return bnot(n.a[0]);
    if (n.op == O_ZEXT || n.op == O_SEXT) return eq(n.a[0], cst(nodes[n.a[0]].w, 0));
    if (n.op == O_POLY) {
        // canonical sign
        if (sgn(w, n.t[0].c) < 0) { d = neg(d); n = nodes[d]; }
        if (n.n == 2 && n.k == 0 && n.t[0].c == 1 && n.t[1].c == rmask(w)) {
            Node x = nodes[n.t[0].m], y = nodes[n.t[1].m];
            if (x.op == y.op && (x.op == O_ZEXT || x.op == O_SEXT) && nodes[x.a[0]].w == nodes[y.a[0]].w) return eq(x.a[0], y.a[0]);
        }
    }
    return nodeN(O_EQ0, 1, 0, {d});
}
Id TermDB::ult(Id a, Id b)
{
    if (a == b) return FALSE_;
    Node na = nodes[a], nb = nodes[b];
    if (na.w == 1) return band(bnot(a), b);
    if (na.op == O_PTR || nb.op == O_PTR) {
        if (na.op == O_PTR && nb.op == O_PTR && na.k == nb.k) return ult(na.a[0], nb.a[0]);
        // distinct objects never overlap; their relative order is unspecified (libstdc++ asks only to
        // detect self-overlap): one fixed order, by object number, stands for all
        if (na.op == O_PTR && nb.op == O_PTR) return na.k < nb.k ? TRUE_ : FALSE_;
        throw Unsupported("pointer ordering against an integer");
    }
    if (na.uhi < nb.ulo) return TRUE_;
    if (na.ulo >= nb.uhi) return FALSE_;
    if (isC(b) && cv(b) == 1) return eq(a, cst(na.w, 0));
    if (isC(a)) { if (cv(a) == rmask(na.w)) return FALSE_; return bnot(ult(b, cst(na.w, cv(a) + 1))); }
    if (na.op == O_ZEXT && nb.op == O_ZEXT && nodes[na.a[0]].w == nodes[nb.a[0]].w) return ult(na.a[0], nb.a[0]);
    if (na.op == O_ZEXT && isC(b) && cv(b) <= rmask(nodes[na.a[0]].w)) return ult(na.a[0], cst(nodes[na.a[0]].w, cv(b)));
    if (isC(b) && cv(b) == na.uhi) return bnot(eq(a, b));
    return nodeN(O_ULT, 1, 0, {a, b});
}
Id TermDB::slt(Id a, Id b)
{
    if (a == b) return FALSE_;
    Node na = nodes[a], nb = nodes[b];
    if (na.w == 1) return band(a, bnot(b));
    if (na.shi < nb.slo) return TRUE_;
    if (na.slo >= nb.shi) return FALSE_;
    if (na.slo >= 0 && nb.slo >= 0) return ult(a, b);
    if (isC(a)) { i128 v = sgn(na.w, cv(a)); return bnot(slt(b, cst(na.w, (u128)(v + 1)))); }
    if (na.op == O_SEXT && nb.op == O_SEXT && nodes[na.a[0]].w == nodes[nb.a[0]].w) return slt(na.a[0], nb.a[0]);
    return nodeN(O_SLT, 1, 0, {a, b});
}
Id TermDB::bnot(Id a)
{
    if (a == TRUE_) return FALSE_;
    if (a == FALSE_) return TRUE_;
    if (nodes[a].op == O_BNOT) return nodes[a].a[0];
    return nodeN(O_BNOT, 1, 0, {a});
}
Id TermDB::band(Id a, Id b)
{
    if (a == b) return a;
    if (a == FALSE_ || b == FALSE_) return FALSE_;
    if (a == TRUE_) return b;
    if (b == TRUE_) return a;
    if (bnot(a) == b) return FALSE_;
    if (a > b) std::swap(a, b);
    // absorption
    const Node &x = nodes[a], &y = nodes[b];
    if (y.op == O_BAND && (y.a[0] == a || y.a[1] == a)) return b;
    if (x.op == O_BAND && (x.a[0] == b || x.a[1] == b)) return a;
    return nodeN(O_BAND, 1, 0, {a, b});
}
Id TermDB::bor(Id a, Id b) { return bnot(band(bnot(a), bnot(b))); }
Id TermDB::bxor(Id a, Id b)
{
    bool inv = false;
    if (nodes[a].op == O_BNOT) { a = nodes[a].a[0]; inv = !inv; }
    if (nodes[b].op == O_BNOT) { b = nodes[b].a[0]; inv = !inv; }
    Id r;
    if (a == b) r = FALSE_;
    else if (a == FALSE_) r = b;
    else if (b == FALSE_) r = a;
    else if (a == TRUE_) r = bnot(b);
    else if (b == TRUE_) r = bnot(a);
    else { if (a > b) std::swap(a, b); r = nodeN(O_BXOR, 1, 0, {a, b}); }
    return inv ? bnot(r) : r;
}
bool TermDB::polyRangeK(Id x, i128 &lo, i128 &hi)
{
    u128 k; const Term *t; uint32_t n; Term tm;
    terms(x, k, t, n, tm);
    unsigned w = nodes[x].w;
    lo = hi = sgn(w, k);
    for (uint32_t i = 0; i < n; i++) {
        i128 c = sgn(w, t[i].c), l, h;
        if (t[i].m == KV) { if (khi <= klo) return false; l = klo; h = (i128)khi - 1; }
        else { const Node &m = nodes[t[i].m]; l = m.slo; h = m.shi; if (m.op == O_EXTRACT && m.a[0] == KV && khi > klo) { l = klo; h = (i128)khi - 1; } }
        i128 a, b; if (mulOv(c, l, a) || mulOv(c, h, b)) return false;
        if (a > b) std::swap(a, b);
        if (addOv(lo, a, lo) || addOv(hi, b, hi)) return false;
    }
    return true;
}
Id TermDB::lam(Id body)
{
    // eta: LAM(SEL(B,K)) = B
    const Node &n = nodes[body];
    if (n.op == O_SEL && n.a[1] == KV && !(nodes[n.a[0]].flags & 1)) return n.a[0];
    return nodeN(B_LAM, W_BLOCK, nodes[body].w, {body});
}
Id TermDB::sel(Id block, Id idx, unsigned w)
{
    Node b = nodes[block];
    if (b.op == B_LAM) return idx == KV ? b.a[0] : subst(b.a[0], KV, idx);
    if (b.op == B_CELL) return b.a[0];
    if (b.op == B_PW) {
        i128 lo, hi;
        if (isC(idx)) lo = hi = sgn(64, cv(idx));
        else if (!polyRangeK(idx, lo, hi)) { lo = 0; hi = (i128)1 << 62; }
        i128 pos = 0;
        for (uint32_t i = 0; i < b.n; i += 3) {
            uint32_t len = b.a[i];
            if (lo >= pos && hi < pos + len) return sel(b.a[i + 1], add(sub(idx, cst(64, (u128)pos)), cst(64, b.a[i + 2])), w);
            pos += len;
        }
    }
    // split on indicators / small leaves occurring in the index
    Node in = nodes[idx];
    if (in.op != O_CONST && idx != KV) {
        u128 k; const Term *t; uint32_t n; Term tm;
        terms(idx, k, t, n, tm);
        for (uint32_t i = 0; i < n; i++) {
            Id m = t[i].m; Node mn = nodes[m];
            std::vector<Id> fs; if (mn.op == O_MONO) fs.assign(mn.a, mn.a + mn.n); else fs.push_back(m);
            for (Id f : fs) {
                if (nodes[f].op == O_IND) {
                    Id c = nodes[f].a[0];
                    Id i1 = subst(idx, f, cst(64, 1)), i0 = subst(idx, f, cst(64, 0));
                    return ite(c, sel(block, i1, w), sel(block, i0, w));
                }
                Id sp = nodes[f].supp;
                if (sp != SUPP_MANY && sp != SUPP_NONE && nodes[sp].w > 1) {
                    Node x = nodes[sp]; bool useU = x.uhi - x.ulo <= 15;
                    i128 lo = useU ? (i128)x.ulo : x.slo, hi = useU ? (i128)x.uhi : x.shi;
                    Id r = cst(w, 0);
                    for (i128 v = lo; v <= hi; v++) {
                        Id cv_ = cst(x.w, (u128)v & rmask(x.w));
                        r = add(r, mul(ind(w, eq(sp, cv_)), sel(block, subst(idx, sp, cv_), w)));
                    }
                    return r;
                }
            }
        }
    }
    return nodeN(O_SEL, w, 0, {block, idx});
}
Id TermDB::fdiv(Id a, Id b)
{
    if (isC(a) && isC(b)) return real(rv(a) / rv(b));
    if (isC(b)) {
        double d = rv(b); int e; double m = frexp(d, &e);
        if (m == 0.5 || m == -0.5) return scale(a, b_(1 / d));
    }
    return nodeN(O_FDIV, W_REAL, 0, {a, b});
}
Id TermDB::itofp(Id x, bool s)
{
    Node n = nodes[x];
    if (n.op == O_CONST) return real(s ? (double)sgn(n.w, n.k) : (double)n.k);
    if (n.w == 1) { Id r = ind(W_REAL, x); return s ? neg(r) : r; }
    if (n.op == O_IND) return ind(W_REAL, n.a[0]);
    if (s && n.slo >= 0) s = false;
    if (!s && n.op == O_ZEXT) return itofp(n.a[0], false);
    if (s && n.op == O_SEXT) return itofp(n.a[0], true);
    return nodeN(s ? O_SITOFP : O_UITOFP, W_REAL, 0, {x});
}
Id TermDB::fptoi(Id x, unsigned w, bool s)
{
    if (isC(x)) { double d = rv(x); return cst(w, s ? (u128)(i128)d : (u128)d); }
    const Node &n = nodes[x];
    if ((n.op == O_SITOFP || n.op == O_UITOFP) && nodes[n.a[0]].w <= 52 && nodes[n.a[0]].w <= w) return n.op == O_SITOFP ? sext(n.a[0], w) : zext(n.a[0], w);
    return nodeN(s ? O_FPTOSI : O_FPTOUI, w, 0, {x});
}
Id TermDB::fromRing(Id x, unsigned w)
{
    if (isC(x)) return cst(w, cv(x));
    return nodeN(O_FROMRING, w, 0, {x});
}
Id TermDB::toRing(Id x, unsigned ring)
{
    Node n = nodes[x];
    if (n.op == O_CONST) return cst(ring, n.k % modOf(ring));
    if (n.op == O_FROMRING && nodes[n.a[0]].w == ring) return n.a[0];
    return nodeN(O_TORING, ring, 0, {x});
}
Id TermDB::ufs(unsigned w, const std::string &name, const std::vector<Id> &args) { return nodeN(O_UFS, w, ufId(name), args); }

void TermDB::flatten(Id x, u128 &k, std::vector<std::pair<Id, u128>> &out, bool deep, size_t cap)
{
    unsigned w = nodes[x].w;
    std::map<Id, u128, std::greater<Id>> pend; // nodes to expand (BIG polys), ids descending => topological
    std::unordered_map<Id, u128> acc; k = 0;
    auto put = [&](Id m, u128 c) {
        if (nodes[m].op == O_BIG) { auto &p = pend[nodes[m].a[0]]; p = radd(w, p, c); return; }
        if (nodes[m].op == O_POLY) { auto &p = pend[m]; p = radd(w, p, c); return; }
        auto it = acc.find(m);
        if (it == acc.end()) acc[m] = c; else { it->second = radd(w, it->second, c); }
    };
    if (nodes[x].op == O_CONST) { k = nodes[x].k; return; }
    put(x, rone(w));
    bool again = true;
    while (again) {
        again = false;
        while (!pend.empty()) {
            auto it = pend.begin(); Id p = it->first; u128 c = it->second; pend.erase(it);
            if (rzero(w, c)) continue;
            const Node n = nodes[p];
            if (n.op != O_POLY) { put(p, c); continue; }
            k = radd(w, k, rmul(w, n.k, c));
            for (uint32_t i = 0; i < n.n; i++) { u128 cc = rmul(w, n.t[i].c, c); if (!rzero(w, cc)) put(n.t[i].m, cc); }
            if (acc.size() > cap) throw Unsupported("flatten cap");
        }
        if (deep) {
            // expand products containing BIG factors
            std::vector<std::pair<Id, u128>> todo;
            for (auto &p : acc) if (nodes[p.first].op == O_MONO && !rzero(w, p.second)) {
                const Node &n = nodes[p.first];
                for (uint32_t i = 0; i < n.n; i++) if (nodes[n.a[i]].op == O_BIG) { todo.push_back(p); break; }
            }
            for (auto &p : todo) {
                acc.erase(p.first);
                const Node n = nodes[p.first];
                Id bigf = 0; std::vector<Id> rest; bool got = false;
                for (uint32_t i = 0; i < n.n; i++) if (!got && nodes[n.a[i]].op == O_BIG) { bigf = n.a[i]; got = true; } else rest.push_back(n.a[i]);
                Id r = rest[0];
                for (size_t i = 1; i < rest.size(); i++) { bool z; r = monoMul(r, rest[i], w, z); if (z) { r = 0xffffffff; break; } }
                if (r == 0xffffffff) continue;
                u128 kk; std::vector<std::pair<Id, u128>> o2; flatten(bigf, kk, o2, false, cap);
                if (!rzero(w, kk)) put(r, rmul(w, kk, p.second));
                for (auto &q : o2) { bool z; Id m = monoMul(r, q.first, w, z); if (!z) put(m, rmul(w, q.second, p.second)); }
                if (acc.size() > cap) throw Unsupported("flatten cap");
                again = true;
            }
            if (!pend.empty()) again = true;
        }
    }
    for (auto &p : acc) if (!rzero(w, p.second)) out.push_back(p);
}
bool TermDB::isZeroFlat(Id x)
{
    if (isC(x)) return rzero(nodes[x].w, cv(x));
    if (nodes[x].w == 1) return x == FALSE_;
    u128 k; std::vector<std::pair<Id, u128>> o;
    try { flatten(x, k, o, true); } catch (Unsupported &) { return false; }
    return o.empty() && rzero(nodes[x].w, k);
}
Id TermDB::rebuild(Id x, Subst &memo, const std::function<Id(Id)> &leaf)
{
    auto it = memo.find(x); if (it != memo.end()) return it->second;
    Id l = leaf(x);
    if (l != 0xffffffffu) { memo[x] = l; return l; }
    Node n = nodes[x];
    auto R = [&](Id y) { return rebuild(y, memo, leaf); };
    Id r = x;
    switch (n.op) {
    case O_CONST: case O_SYM: case O_KV: case B_SYM: case O_FN: break;
    case O_POLY: {
        r = cst(n.w, n.k);
        bool same = true; std::vector<Id> ms(n.n);
        for (uint32_t i = 0; i < n.n; i++) { ms[i] = R(n.t[i].m); if (ms[i] != n.t[i].m) same = false; }
        if (same) { r = x; break; }
        for (uint32_t i = 0; i < n.n; i++) r = add(r, scale(ms[i], n.t[i].c));
        break;
    }
    case O_MONO: { r = R(n.a[0]); for (uint32_t i = 1; i < n.n; i++) r = mul(r, R(n.a[i])); break; }
    case O_BIG: { r = R(n.a[0]); if (nodes[r].op == O_POLY && nodes[r].n > 4) r = nodeN(O_BIG, n.w, 0, {r}); break; }
    case O_IND: r = ind(n.w, R(n.a[0])); break;
    case O_ZEXT: r = zext(R(n.a[0]), n.w); break;
    case O_SEXT: r = sext(R(n.a[0]), n.w); break;
    case O_EXTRACT: r = extract(R(n.a[0]), (unsigned)n.k, n.w); break;
    case O_AND: r = and_(R(n.a[0]), R(n.a[1])); break;
    case O_OR: r = or_(R(n.a[0]), R(n.a[1])); break;
    case O_XOR: r = xor_(R(n.a[0]), R(n.a[1])); break;
    case O_UDIV: r = udiv(R(n.a[0]), R(n.a[1])); break;
    case O_UREM: r = urem(R(n.a[0]), R(n.a[1])); break;
    case O_SDIV: r = sdiv(R(n.a[0]), R(n.a[1])); break;
    case O_SREM: r = srem(R(n.a[0]), R(n.a[1])); break;
    case O_SHL: r = shl(R(n.a[0]), R(n.a[1])); break;
    case O_LSHR: r = lshr(R(n.a[0]), R(n.a[1])); break;
    case O_ASHR: r = ashr(R(n.a[0]), R(n.a[1])); break;
    case O_SEL: r = sel(R(n.a[0]), R(n.a[1]), n.w); break;
    case O_PTR: r = nodeN(O_PTR, 64, n.k, {R(n.a[0])}); break;
    case O_AGG: { std::vector<Id> v; for (uint32_t i = 0; i < n.n; i++) v.push_back(R(n.a[i])); r = nodeN(O_AGG, W_AGG, 0, v); break; }
    case O_EQ0: { Id y = R(n.a[0]); r = eq(y, cst(nodes[y].w, 0)); break; }
    case O_ULT: r = ult(R(n.a[0]), R(n.a[1])); break;
    case O_SLT: r = slt(R(n.a[0]), R(n.a[1])); break;
    case O_BNOT: r = bnot(R(n.a[0])); break;
    case O_BAND: r = band(R(n.a[0]), R(n.a[1])); break;
    case O_BXOR: r = bxor(R(n.a[0]), R(n.a[1])); break;
    case O_FDIV: r = fdiv(R(n.a[0]), R(n.a[1])); break;
    case O_SITOFP: r = itofp(R(n.a[0]), true); break;
    case O_UITOFP: r = itofp(R(n.a[0]), false); break;
    case O_FPTOSI: r = fptoi(R(n.a[0]), n.w, true); break;
    case O_FPTOUI: r = fptoi(R(n.a[0]), n.w, false); break;
    case O_FROMRING: r = fromRing(R(n.a[0]), n.w); break;
    case O_TORING: r = toRing(R(n.a[0]), n.w); break;
    case B_LAM: { Id y = R(n.a[0]); r = y == n.a[0] ? x : lam(y); break; } // KV substitutions never reach here (flag cleared)
    case B_PW: {
        std::vector<Id> v(n.a, n.a + n.n); bool ch = false;
        for (uint32_t i = 1; i < n.n; i += 3) { Id y = R(v[i]); if (y != v[i]) { v[i] = y; ch = true; } }
        if (ch) r = nodeN(B_PW, W_BLOCK, n.k, v);
        break;
    }
    default: { // generic n-ary
        std::vector<Id> v; bool ch = false;
        for (uint32_t i = 0; i < n.n; i++) { Id y = R(n.a[i]); ch |= y != n.a[i]; v.push_back(y); }
        if (ch) r = nodeN(n.op, n.w, n.k, v);
    }
    }
    memo[x] = r; return r;
}
Id TermDB::subst(Id x, Id from, Id to)
{
    if (from == KV && !(nodes[x].flags & 1)) return x;
    Subst memo; memo[from] = to;
    bool pers = from == KV && isC(to); // instances of shared big sums at a constant index are kept
    return rebuild(x, memo, [&](Id y) -> Id {
        if (y == from) return to;
        if (from == KV && !(nodes[y].flags & 1)) return y;
        if (pers && nodes[y].op == O_BIG) {
            uint64_t key = (uint64_t)y << 32 | to; auto it = bigSub.find(key); if (it != bigSub.end()) return it->second;
            Id r = subst(nodes[y].a[0], from, to); if (nodes[r].op == O_POLY && nodes[r].n > 4) r = nodeN(O_BIG, nodes[r].w, 0, {r});
            if (bigSub.size() > 4000000) bigSub.clear();
            return bigSub[key] = r;
        }
        return 0xffffffffu;
    });
}
bool TermDB::mentions(Id x, Id leaf)
{
    std::unordered_set<Id> seen; std::vector<Id> st{x};
    while (!st.empty()) {
        Id y = st.back(); st.pop_back();
        if (y == leaf) return true;
        if (!seen.insert(y).second) continue;
        const Node &n = nodes[y];
        if (n.op == O_POLY) { for (uint32_t i = 0; i < n.n; i++) st.push_back(n.t[i].m); }
        else if (n.op == B_PW) { for (uint32_t i = 1; i < n.n; i += 3) st.push_back(n.a[i]); }
        else for (uint32_t i = 0; i < n.n; i++) st.push_back(n.a[i]);
    }
    return false;
}
bool TermDB::ceval(Id x, std::unordered_map<Id, u128> &env, u128 &out)
{
    auto it = env.find(x); if (it != env.end()) { out = it->second; return true; }
    Node n = nodes[x]; u128 r = 0, a = 0, b = 0;
    auto E = [&](int i, u128 &o) { return ceval(n.a[i], env, o); };
    auto M = [&](u128 v) { return v & rmask(n.w); };
    switch (n.op) {
    case O_CONST: out = n.k; return true;
    case O_POLY:
        if (!isBits(n.w)) return false;
        r = n.k;
        for (uint32_t i = 0; i < n.n; i++) { if (!ceval(n.t[i].m, env, a)) return false; r += n.t[i].c * a; }
        r = M(r); break;
    case O_MONO: if (!isBits(n.w)) return false; r = 1; for (uint32_t i = 0; i < n.n; i++) { if (!E(i, a)) return false; r *= a; } r = M(r); break;
    case O_BIG: if (!E(0, r)) return false; break;
    case O_IND: if (!isBits(n.w)) return false; if (!E(0, r)) return false; break;
    case O_ZEXT: if (!E(0, r)) return false; break;
    case O_SEXT: if (!E(0, a)) return false; r = M((u128)sgn(nodes[n.a[0]].w, a)); break;
    case O_EXTRACT: if (!E(0, a)) return false; r = M(a >> (unsigned)n.k); break;
    case O_AND: if (!E(0, a) || !E(1, b)) return false; r = a & b; break;
    case O_OR: if (!E(0, a) || !E(1, b)) return false; r = a | b; break;
    case O_XOR: case O_BXOR: if (!E(0, a) || !E(1, b)) return false; r = a ^ b; break;
    case O_BAND: if (!E(0, a) || !E(1, b)) return false; r = a & b; break;
    case O_BNOT: if (!E(0, a)) return false; r = !a; break;
    case O_UDIV: if (!E(0, a) || !E(1, b) || !b) return false; r = a / b; break;
    case O_UREM: if (!E(0, a) || !E(1, b) || !b) return false; r = a % b; break;
    case O_SDIV: if (!E(0, a) || !E(1, b) || !b) return false; r = M((u128)(sgn(n.w, a) / sgn(n.w, b))); break;
    case O_SREM: if (!E(0, a) || !E(1, b) || !b) return false; r = M((u128)(sgn(n.w, a) % sgn(n.w, b))); break;
    case O_SHL: if (!E(0, a) || !E(1, b) || b >= n.w) return false; r = M(a << (unsigned)b); break;
    case O_LSHR: if (!E(0, a) || !E(1, b) || b >= n.w) return false; r = a >> (unsigned)b; break;
    case O_ASHR: if (!E(0, a) || !E(1, b) || b >= n.w) return false; r = M((u128)(sgn(n.w, a) >> (unsigned)b)); break;
    case O_EQ0: if (!isBits(nodes[n.a[0]].w)) return false; if (!E(0, a)) return false; r = a == 0; break;
    case O_ULT: if (!E(0, a) || !E(1, b)) return false; r = a < b; break;
    case O_SLT: { if (!E(0, a) || !E(1, b)) return false; unsigned w = nodes[n.a[0]].w; r = sgn(w, a) < sgn(w, b); break; }
    default: return false;
    }
    env[x] = r; out = r; return true;
}
static std::string u2s(u128 v) { if (!v) return "0"; std::string s; while (v) { s = char('0' + (int)(v % 10)) + s; v /= 10; } return s; }
std::string TermDB::str(Id x, int depth)
{
    Node n = nodes[x];
    if (n.op == O_CONST) { if (n.w == W_REAL) return std::to_string(rv(x)); if (n.w == 1) return n.k ? "true" : "false"; i128 s = isBits(n.w) ? sgn(n.w, n.k) : (i128)n.k; return s < 0 ? "-" + u2s((u128)-s) : u2s((u128)s); }
    if (n.op == O_SYM) return syms[(size_t)n.k].name;
    if (n.op == B_SYM) return syms[(size_t)(uint64_t)n.k].name;
    if (n.op == O_KV) return "K";
    if (depth <= 0) return "#" + std::to_string(x);
    if (n.op == O_POLY) {
        std::string s;
        for (uint32_t i = 0; i < n.n && i < 12; i++) {
            if (!s.empty()) s += " + ";
            if (n.w == W_REAL) s += std::to_string(d_(n.t[i].c)) + "*"; else if (n.t[i].c != 1) { i128 c = isBits(n.w) ? sgn(n.w, n.t[i].c) : (i128)n.t[i].c; s += (c < 0 ? "-" + u2s((u128)-c) : u2s((u128)c)) + "*"; }
            s += str(n.t[i].m, depth - 1);
        }
        if (n.n > 12) s += " + ...";
        if (!rzero(n.w, n.k)) { s += " + " + str(cst(n.w, n.k), 1); }
        return "(" + s + ")";
    }
    static const char *nm[] = {"const", "sym", "K", "poly", "*", "big", "ind", "zext", "sext", "extract", "and", "or", "xor", "udiv", "urem", "sdiv", "srem", "shl", "lshr", "ashr", "sel", "ptr", "fn", "agg", "concat", "eq0", "ult", "slt", "not", "band", "bxor", "flt", "feq", "uf", "fdiv", "sitofp", "uitofp", "fptosi", "fptoui", "fbits", "bitsf", "fromring", "toring", "bsym", "lam", "buf", "pw", "cell"};
    std::string s = nm[n.op];
    if (n.op == O_UFS || n.op == B_UF) s = ufList[(uint32_t)n.k];
    if (n.op == O_EXTRACT) s += "[" + u2s(n.k) + "+" + std::to_string(n.w) + "]";
    if (n.op == O_ZEXT || n.op == O_SEXT) s += std::to_string(nodes[n.a[0]].w) + ">" + std::to_string(n.w) + "[" + std::to_string((long long)nodes[n.a[0]].slo) + "]";
    if (n.op == O_PTR) s += u2s(n.k);
    s += "(";
    if (n.op == B_PW) { for (uint32_t i = 0; i < n.n && i < 15; i += 3) s += (i ? "," : "") + std::to_string(n.a[i]) + ":" + str(n.a[i + 1], depth - 1) + "@" + std::to_string(n.a[i + 2]); }
    else for (uint32_t i = 0; i < n.n && i < 10; i++) s += (i ? "," : "") + str(n.a[i], depth - 1);
    return s + ")";
}
