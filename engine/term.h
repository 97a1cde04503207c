// Hash-consed term algebra used by the tvc verification-condition generator.
// Values of w-bit machine integers are polynomials over Z/2^w whose monomials
// range over atoms (inputs, array selections, bit-field extractions, 0/1
// indicators of branch conditions, ...).  Normal forms are unique up to the
// explicitly documented size caps, so most obligations close structurally;
// whatever is left is handed to z3.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <stdexcept>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>

typedef unsigned __int128 u128;
typedef __int128 i128;
typedef uint32_t Id;

enum Op : uint8_t {
    O_CONST, O_SYM, O_KV, O_POLY, O_MONO, O_BIG, O_IND, O_ZEXT, O_SEXT, O_EXTRACT,
    O_AND, O_OR, O_XOR, O_UDIV, O_UREM, O_SDIV, O_SREM, O_SHL, O_LSHR, O_ASHR,
    O_SEL, O_PTR, O_FN, O_AGG, O_CONCAT,
    // booleans
    O_EQ0, O_ULT, O_SLT, O_BNOT, O_BAND, O_BXOR, O_FLT, O_FEQ,
    // scalar uninterpreted
    O_UFS,
    // reals
    O_FDIV, O_SITOFP, O_UITOFP, O_FPTOSI, O_FPTOUI, O_FBITS, O_BITSF,
    // ring embeddings
    O_FROMRING, O_TORING,
    // blocks
    B_SYM, B_LAM, B_UF, B_PW, B_CELL
};
enum : uint8_t { W_BLOCK = 0, W_REAL = 200, W_ZP = 201, W_ZR = 202, W_AGG = 203 };

struct Unsupported : std::runtime_error { using std::runtime_error::runtime_error; };

struct Term { u128 c; Id m; };
struct Node {
    Op op; uint8_t w; uint32_t n;
    u128 k;
    union { const Term *t; const Id *a; };
    // value ranges (unsigned / signed), only meaningful for 1..128 bits
    u128 ulo, uhi; i128 slo, shi;
    Id supp;         // SUPP_NONE (constant), SUPP_MANY or the unique small leaf
    uint32_t flags;  // bit0: mentions KV
};
constexpr Id SUPP_NONE = 0xffffffffu, SUPP_MANY = 0xfffffffeu;

extern uint64_t g_ringR;   // modulus of ring W_ZR (raintt prime), set by the harness
constexpr uint64_t ZP_P = 0xffffffff00000001ull;

struct TermDB {
    std::vector<Node> nodes;
    std::unordered_multimap<uint64_t, Id> table;
    std::vector<char *> chunks; size_t chunkPos = 0, chunkCap = 0;
    std::vector<std::string> symName;        // SYM/B_SYM/UF names, index = k
    struct SymInfo { std::string name; bool ranged; i128 lo, hi; uint32_t esz; };
    std::vector<SymInfo> syms;
    std::map<std::string, uint32_t> ufNames; std::vector<std::string> ufList;
    Id TRUE_, FALSE_, KV;
    size_t polyCap = 24;

    TermDB();
    void *alloc(size_t n);
    const Node &operator[](Id i) const { return nodes[i]; }
    Id intern(Node n, const void *payload, size_t bytes);
    void computeInfo(Node &n);

    // constructors
    Id cst(unsigned w, u128 v);
    Id real(double d);
    Id boolc(bool b) { return b ? TRUE_ : FALSE_; }
    bool isC(Id x) const { return nodes[x].op == O_CONST; }
    u128 cv(Id x) const { return nodes[x].k; }
    double rv(Id x) const { uint64_t b = (uint64_t)nodes[x].k; double d; memcpy(&d, &b, 8); return d; }
    unsigned w(Id x) const { return nodes[x].w; }
    Id sym(unsigned w, const std::string &name, bool ranged = false, i128 lo = 0, i128 hi = 0);
    Id bsym(unsigned w, const std::string &name, bool ranged = false, i128 lo = 0, i128 hi = 0);
    Id nodeN(Op op, unsigned w, u128 k, const std::vector<Id> &args);
    Id poly(unsigned w, u128 k, std::vector<Term> &t);   // sorted, non-zero coefs
    Id add(Id a, Id b); Id neg(Id a); Id sub(Id a, Id b); Id scale(Id a, u128 c); Id mul(Id a, Id b);
    Id monoMul(Id a, Id b, unsigned w, bool &zero);
    Id ind(unsigned w, Id c);
    Id diffCancel(Id a, Id b); Id ite(Id c, Id a, Id b);
    Id zext(Id x, unsigned w); Id sext(Id x, unsigned w); Id trunc(Id x, unsigned w) { return extract(x, 0, w); }
    Id extract(Id x, unsigned lo, unsigned w);
    Id and_(Id a, Id b); Id or_(Id a, Id b); Id xor_(Id a, Id b);
    Id shl(Id a, Id b); Id lshr(Id a, Id b); Id ashr(Id a, Id b);
    Id udiv(Id a, Id b); Id urem(Id a, Id b); Id sdiv(Id a, Id b); Id srem(Id a, Id b);
    Id concat(Id hi, Id lo);
    Id eq(Id a, Id b); Id ult(Id a, Id b); Id slt(Id a, Id b);
    Id bnot(Id a); Id band(Id a, Id b); Id bor(Id a, Id b); Id bxor(Id a, Id b);
    Id sel(Id block, Id idx, unsigned w);
    Id lam(Id body);
    Id fdiv(Id a, Id b); Id itofp(Id x, bool sgn); Id fptoi(Id x, unsigned w, bool sgn);
    Id fromRing(Id x, unsigned w); Id toRing(Id x, unsigned ring);
    Id ufs(unsigned w, const std::string &name, const std::vector<Id> &args);
    uint32_t ufId(const std::string &n);

    void terms(Id x, u128 &k, const Term *&t, uint32_t &n, Term &tmp) const;
    u128 rmask(unsigned w) const { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
    u128 radd(unsigned w, u128 a, u128 b) const;
    u128 rmul(unsigned w, u128 a, u128 b) const;
    u128 rneg(unsigned w, u128 a) const;
    u128 rone(unsigned w) const;
    bool rzero(unsigned w, u128 a) const;
    i128 sgn(unsigned w, u128 v) const;
    // full linear normal form: BIG atoms expanded
    void flatten(Id x, u128 &k, std::vector<std::pair<Id, u128>> &out, bool deep, size_t cap = 4000000);
    bool isZeroFlat(Id x);
    // substitution / rebuild
    typedef std::unordered_map<Id, Id> Subst;
    Id rebuild(Id x, Subst &memo, const std::function<Id(Id)> &leaf);
    Id subst(Id x, Id from, Id to); std::unordered_map<uint64_t, Id> bigSub;
    bool mentions(Id x, Id leaf);
    std::unordered_map<Id, std::unordered_map<Id, Id>> substMemo;
    // concrete evaluation: leaf -> value; returns false if a leaf is unknown
    bool ceval(Id x, std::unordered_map<Id, u128> &env, u128 &out);
    std::string str(Id x, int depth = 6);
    // K range currently known (map mode); used by sel() on piecewise blocks
    uint64_t klo = 0, khi = 0;
    bool polyRangeK(Id x, i128 &lo, i128 &hi); // integer range of a poly with K in [klo,khi)
};
extern TermDB D;
