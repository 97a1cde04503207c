#include "smt.h"
#include <z3.h>
#include <algorithm>
#include <chrono>
#include <unistd.h>
#include <fstream>
uint64_t smtQueries = 0, smtCacheHits = 0; double smtSecs = 0;
static bool bits(unsigned w) { return w >= 1 && w <= 128; }
static bool isLeaf(const Node &n)
{
    switch (n.op) {
    case O_SYM: case O_KV: case O_SEL: case O_UFS: case O_FROMRING: case O_TORING: case O_FPTOSI: case O_FPTOUI: case O_FLT: case O_FEQ: case O_FBITS: case O_PTR: case O_FN: return true;
    case O_EQ0: return !bits(D[n.a[0]].w);
    default: return false;
    }
}
static void leavesOf(Id x, std::unordered_set<Id> &seen, std::set<Id> &lv)
{
    std::vector<Id> st{x};
    while (!st.empty()) {
        Id y = st.back(); st.pop_back();
        if (!seen.insert(y).second) continue;
        const Node &n = D[y];
        if (n.op == O_CONST) continue;
        if (isLeaf(n)) { lv.insert(y); continue; }
        if (n.op == O_POLY) for (uint32_t i = 0; i < n.n; i++) st.push_back(n.t[i].m);
        else for (uint32_t i = 0; i < n.n; i++) st.push_back(n.a[i]);
    }
}
namespace {
struct Ctx {
    Z3_context c; 
    Ctx() { Z3_config cfg = Z3_mk_config(); Z3_set_param_value(cfg, "model", "true"); c = Z3_mk_context(cfg); }
};
struct Tr {
    Z3_context c; std::unordered_map<Id, Z3_ast> memo; std::vector<std::pair<Id, Z3_ast>> leaves; std::vector<Z3_ast> side; uint64_t klo, khi;
    Z3_ast num(unsigned w, u128 v)
    {
        Z3_sort s = Z3_mk_bv_sort(c, w);
        if (w <= 64) return Z3_mk_unsigned_int64(c, (uint64_t)v, s);
        std::string str; if (!v) str = "0"; while (v) { str = char('0' + (int)(v % 10)) + str; v /= 10; }
        return Z3_mk_numeral(c, str.c_str(), s);
    }
    Z3_ast tob(Z3_ast b) { return b; }
    Z3_ast T(Id x)   // w==1 -> Bool
    {
        auto it = memo.find(x); if (it != memo.end()) return it->second;
        Node n = D[x]; Z3_ast r;
        auto A = [&](int i) { return T(n.a[i]); };
        if (n.op == O_CONST) r = n.w == 1 ? (n.k ? Z3_mk_true(c) : Z3_mk_false(c)) : num(n.w, n.k);
        else if (isLeaf(n)) {
            std::string nm = "v" + std::to_string(leaves.size());
            Z3_sort s = n.w == 1 ? Z3_mk_bool_sort(c) : Z3_mk_bv_sort(c, n.w);
            if (!bits(n.w)) throw Unsupported("smt leaf sort");
            r = Z3_mk_const(c, Z3_mk_string_symbol(c, nm.c_str()), s);
            leaves.push_back({x, r});
            if (n.w > 1) {
                if (n.op == O_KV) {
                    side.push_back(Z3_mk_bvuge(c, r, num(64, klo))); side.push_back(Z3_mk_bvult(c, r, num(64, khi > klo ? khi : (1 << 20))));
                }
                else {
                    u128 full = D.rmask(n.w);
                    if (n.uhi != full || n.ulo != 0) { side.push_back(Z3_mk_bvuge(c, r, num(n.w, n.ulo))); side.push_back(Z3_mk_bvule(c, r, num(n.w, n.uhi))); }
                    if (n.slo < 0 && n.shi >= 0 && (n.w == 128 || n.slo > -(i128)((u128)1 << (n.w - 1)) || n.shi < (i128)(((u128)1 << (n.w - 1)) - 1))) {
                        side.push_back(Z3_mk_bvsge(c, r, num(n.w, (u128)n.slo & full))); side.push_back(Z3_mk_bvsle(c, r, num(n.w, (u128)n.shi & full)));
                    }
                }
            }
        }
        else switch (n.op) {
        case O_POLY: {
            // group  B + ite structure is kept as sums; z3 bit-blasts
            bool first = true;
            if (n.k) { r = num(n.w, n.k); first = false; }
            for (uint32_t i = 0; i < n.n; i++) {
                Z3_ast m; u128 cf = n.t[i].c;
                const Node &mn = D[n.t[i].m];
                bool negc = false;
                if (cf >> (n.w - 1) & 1) { u128 nc = (~cf + 1) & D.rmask(n.w); if (nc != cf) { negc = true; cf = nc; } }
                if (mn.op == O_IND) m = Z3_mk_ite(c, T(mn.a[0]), num(n.w, cf), num(n.w, 0));
                else { m = T(n.t[i].m); if (cf != 1) {
                    unsigned z = 0; while (!((cf >> z) & 1)) z++;
                    if ((cf >> z) == 1) m = Z3_mk_bvshl(c, m, num(n.w, z)); else m = Z3_mk_bvmul(c, m, num(n.w, cf)); } }
                if (first) { r = negc ? Z3_mk_bvneg(c, m) : m; first = false; }
                else r = negc ? Z3_mk_bvsub(c, r, m) : Z3_mk_bvadd(c, r, m);
            }
            break;
        }
        case O_MONO: {
            // indicators as ite
            Z3_ast cond = nullptr, val = nullptr;
            for (uint32_t i = 0; i < n.n; i++) {
                const Node &m = D[n.a[i]];
                if (m.op == O_IND) { Z3_ast b = T(m.a[0]); if (cond) { Z3_ast q[2] = {cond, b}; cond = Z3_mk_and(c, 2, q); } else cond = b; }
                else { Z3_ast v = T(n.a[i]); val = val ? Z3_mk_bvmul(c, val, v) : v; }
            }
            if (!val) val = num(n.w, 1);
            r = cond ? Z3_mk_ite(c, cond, val, num(n.w, 0)) : val; break;
        }
        case O_BIG: r = A(0); break;
        case O_IND: r = Z3_mk_ite(c, A(0), num(n.w, 1), num(n.w, 0)); break;
        case O_ZEXT: r = Z3_mk_zero_ext(c, n.w - D[n.a[0]].w, A(0)); break;
        case O_SEXT: r = Z3_mk_sign_ext(c, n.w - D[n.a[0]].w, A(0)); break;
        case O_EXTRACT: {
            r = Z3_mk_extract(c, (unsigned)n.k + n.w - 1, (unsigned)n.k, A(0));
            if (n.w == 1) r = Z3_mk_eq(c, r, num(1, 1)); break;
        }
        case O_AND: r = Z3_mk_bvand(c, A(0), A(1)); break;
        case O_OR: r = Z3_mk_bvor(c, A(0), A(1)); break;
        case O_XOR: r = Z3_mk_bvxor(c, A(0), A(1)); break;
        case O_UDIV: r = Z3_mk_bvudiv(c, A(0), A(1)); break;
        case O_UREM: r = Z3_mk_bvurem(c, A(0), A(1)); break;
        case O_SDIV: r = Z3_mk_bvsdiv(c, A(0), A(1)); break;
        case O_SREM: r = Z3_mk_bvsrem(c, A(0), A(1)); break;
        case O_SHL: r = Z3_mk_bvshl(c, A(0), A(1)); break;
        case O_LSHR: r = Z3_mk_bvlshr(c, A(0), A(1)); break;
        case O_ASHR: r = Z3_mk_bvashr(c, A(0), A(1)); break;
        case O_EQ0: r = Z3_mk_eq(c, A(0), num(D[n.a[0]].w, 0)); break;
        case O_ULT: r = Z3_mk_bvult(c, A(0), A(1)); break;
        case O_SLT: r = Z3_mk_bvslt(c, A(0), A(1)); break;
        case O_BNOT: r = Z3_mk_not(c, A(0)); break;
        case O_BAND: { Z3_ast q[2] = {A(0), A(1)}; r = Z3_mk_and(c, 2, q); break; }
        case O_BXOR: r = Z3_mk_xor(c, A(0), A(1)); break;
        default: throw Unsupported("smt op");
        }
        memo[x] = r; return r;
    }
};
}
static std::string canon(const std::vector<Id> &fs, uint64_t klo, uint64_t khi)
{
    std::string s; std::unordered_map<Id, uint32_t> num; uint32_t next = 0;
    auto put = [&](const void *p, size_t n) { s.append((const char *)p, n); };
    std::function<void(Id)> go = [&](Id x) {
        auto it = num.find(x);
        if (it != num.end()) { s += '@'; put(&it->second, 4); return; }
        Node n = D[x];
        num[x] = next++;
        s += (char)n.op; s += (char)n.w;
        if (isLeaf(n)) { s += '?'; if (n.op == O_KV) { s += 'K'; put(&klo, 8); put(&khi, 8); } else { put(&n.ulo, 16); put(&n.uhi, 16); put(&n.slo, 16); put(&n.shi, 16); } return; }
        put(&n.k, 16); put(&n.n, 4);
        if (n.op == O_POLY) for (uint32_t i = 0; i < n.n; i++) { put(&n.t[i].c, 16); go(n.t[i].m); }
        else for (uint32_t i = 0; i < n.n; i++) go(n.a[i]);
    };
    for (Id f : fs) { s += '|'; go(f); }
    return s;
}
static std::unordered_map<std::string, int> cache;  // 0 valid(unsat) 1 sat 2 unknown
static int external(Z3_context c, Z3_solver s, unsigned ms, std::string &who)
{
    const char *str = Z3_solver_to_string(c, s);
    char fn[64]; snprintf(fn, sizeof fn, "/tmp/tvc.%d.smt2", (int)getpid());
    { std::ofstream f(fn); f << "(set-logic QF_BV)\n" << str << "\n(check-sat)\n"; }
    unsigned sec = ms / 1000 + 1; int res = 2;
    std::string cmds[2] = {"timeout " + std::to_string(sec) + " cvc5 --bitblast=eager --bv-solver=bitblast " + fn + " 2>/dev/null", "timeout " + std::to_string(sec) + " z3-new " + fn + " 2>/dev/null"};
    for (int i = 0; i < 2 && res == 2; i++) {
        FILE *p = popen(cmds[i].c_str(), "r"); if (!p) continue;
        char buf[256]; std::string o; while (fgets(buf, sizeof buf, p)) o += buf; pclose(p);
        if (o.rfind("unsat", 0) == 0) { res = 0; who = i ? "z3-new" : "cvc5"; } else if (o.rfind("sat", 0) == 0) { res = 1; who = i ? "z3-new" : "cvc5"; }
    }
    unlink(fn); return res;
}
static SmtResult check(const std::vector<Id> &fs0, Id negGoal, uint64_t klo, uint64_t khi, unsigned ms, bool cone)
{
    auto t0 = std::chrono::steady_clock::now();
    SmtResult R; R.r = SmtResult::UNKNOWN; R.secs = 0;
    // cone of influence
    std::vector<Id> fs;
    if (cone) {
        std::unordered_set<Id> s; std::set<Id> lv; leavesOf(negGoal, s, lv);
        std::vector<std::pair<Id, std::set<Id>>> rest;
        for (Id f : fs0) { std::unordered_set<Id> s2; std::set<Id> l2; leavesOf(f, s2, l2); rest.push_back({f, l2}); }
        bool ch = true; std::vector<bool> used(rest.size());
        while (ch) {
            ch = false;
            for (size_t i = 0; i < rest.size(); i++) if (!used[i]) {
                bool hit = false; for (Id l : rest[i].second) if (lv.count(l)) { hit = true; break; }
                if (hit) { used[i] = true; ch = true; lv.insert(rest[i].second.begin(), rest[i].second.end()); }
            }
        }
        for (size_t i = 0; i < rest.size(); i++) if (used[i]) fs.push_back(rest[i].first);
        fs.push_back(negGoal);
    }
    else fs = fs0;
    std::string key = canon(fs, klo, khi);
    auto it = cache.find(key);
    if (it != cache.end() && it->second != 1) { smtCacheHits++; R.r = it->second == 0 ? SmtResult::VALID : SmtResult::UNKNOWN; R.solver = "cache"; return R; }
    smtQueries++;
    static Ctx *ctx = nullptr; static int uses = 0;
    if (!ctx || ++uses > 400) { if (ctx) { Z3_del_context(ctx->c); delete ctx; } ctx = new Ctx; uses = 0; }
    Z3_context c = ctx->c;
    Tr tr; tr.c = c; tr.klo = klo; tr.khi = khi;
    std::vector<Z3_ast> as;
    for (Id f : fs) as.push_back(tr.T(f));
    Z3_solver s = Z3_mk_solver_for_logic(c, Z3_mk_string_symbol(c, "QF_BV"));
    Z3_solver_inc_ref(c, s);
    Z3_params p = Z3_mk_params(c); Z3_params_inc_ref(c, p);
    unsigned first = std::min(ms, 20000u);
    Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, "timeout"), first);
    Z3_solver_set_params(c, s, p);
    for (auto a : tr.side) Z3_solver_assert(c, s, a);
    for (auto a : as) Z3_solver_assert(c, s, a);
    Z3_lbool b = Z3_solver_check(c, s);
    int res = b == Z3_L_FALSE ? 0 : b == Z3_L_TRUE ? 1 : 2;
    R.solver = "z3";
    if (res == 2 && ms > first) res = external(c, s, ms - first, R.solver);
    if (res == 1 && R.solver == "z3") {
        Z3_model m = Z3_solver_get_model(c, s); Z3_model_inc_ref(c, m);
        for (auto &l : tr.leaves) {
            Z3_ast v; if (!Z3_model_eval(c, m, l.second, true, &v)) continue;
            if (D[l.first].w == 1) { R.model[l.first] = Z3_get_bool_value(c, v) == Z3_L_TRUE; continue; }
            Z3_string st = Z3_get_numeral_string(c, v); u128 x = 0; for (const char *q = st; *q; q++) x = x * 10 + (*q - '0');
            R.model[l.first] = x;
        }
        Z3_model_dec_ref(c, m);
    }
    Z3_params_dec_ref(c, p); Z3_solver_dec_ref(c, s);
    cache[key] = res;
    R.r = res == 0 ? SmtResult::VALID : res == 1 ? SmtResult::INVALID : SmtResult::UNKNOWN;
    R.secs = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); smtSecs += R.secs;
    return R;
}
SmtResult smtProve(const std::vector<Id> &pc, Id goal, uint64_t klo, uint64_t khi, unsigned ms)
{
    if (goal == D.TRUE_) return {SmtResult::VALID, {}, 0, "const"};
    return check(pc, D.bnot(goal), klo, khi, ms, goal != D.FALSE_ ? true : false);
}
int smtSat(const std::vector<Id> &pc, uint64_t klo, uint64_t khi, unsigned ms)
{
    for (Id f : pc) if (f == D.FALSE_) return 0;
    auto r = check(pc, D.TRUE_, klo, khi, ms, false);
    return r.r == SmtResult::VALID ? 0 : r.r == SmtResult::INVALID ? 1 : 2;
}
