// Symbolic bit-vector expressions: hash-consed, width <= 64, with a "wire" normal form
// (per-bit constants / bits of opaque atoms), known bits, and single-variable tables.
#pragma once
#include <cstdint>
#include <vector>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <map>
#include <memory>
#include <algorithm>
#include <cstring>
#include <cassert>
#include <cstdio>
#include <cstdlib>
#include <z3.h>

enum Op : uint8_t { O_CONST, O_VAR, O_WIRE, O_ADD, O_SUB, O_MUL, O_UDIV, O_SDIV, O_UREM, O_SREM,
  O_AND, O_OR, O_XOR, O_SHL, O_LSHR, O_ASHR, O_EQ, O_ULT, O_ULE, O_SLT, O_SLE, O_ITE, O_TAB };
static const char* const opNames[] = {"const","var","wire","add","sub","mul","udiv","sdiv","urem","srem",
  "and","or","xor","shl","lshr","ashr","eq","ult","ule","slt","sle","ite","tab"};

struct Expr;
typedef const Expr* E;
struct Bit { E atom; uint8_t idx; bool operator==(const Bit& o) const { return atom == o.atom && idx == o.idx; } };

struct Expr {
  Op op; uint8_t w; uint32_t id;
  E a = nullptr, b = nullptr, c = nullptr;
  uint64_t cv = 0;                 // CONST value / VAR id
  uint64_t k0 = 0, k1 = 0;         // known zero / one bits
  int32_t svar = -1;               // -1 none, >=0 the only variable, -2 several
  std::vector<int32_t> vars;       // sorted
  std::vector<Bit> wire;
  std::vector<uint64_t> table;
  mutable Z3_ast z = nullptr;
  mutable uint64_t ev = 0; mutable uint64_t evEpoch = 0;
  mutable std::unique_ptr<std::vector<uint64_t>> stab;
  mutable uint32_t mark = 0;
};

struct Val { uint64_t c; E e; };
static inline uint64_t maskw(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static inline Val C(uint64_t v, unsigned w) { return Val{v & maskw(w), nullptr}; }

struct Dom { uint64_t m[4]; 
  bool get(unsigned i) const { return m[i >> 6] >> (i & 63) & 1; }
  void set(unsigned i) { m[i >> 6] |= 1ull << (i & 63); }
  bool empty() const { return !(m[0] | m[1] | m[2] | m[3]); }
  Dom operator&(const Dom& o) const { return Dom{{m[0] & o.m[0], m[1] & o.m[1], m[2] & o.m[2], m[3] & o.m[3]}}; }
  Dom operator~() const { return Dom{{~m[0], ~m[1], ~m[2], ~m[3]}}; }
  bool operator==(const Dom& o) const { return !memcmp(m, o.m, sizeof m); }
  unsigned first() const { for (int i = 0; i < 4; i++) if (m[i]) return i * 64 + __builtin_ctzll(m[i]); return 0; }
  unsigned count() const { unsigned n = 0; for (int i = 0; i < 4; i++) n += __builtin_popcountll(m[i]); return n; }
};

struct VarInfo { uint8_t w; Dom dom; E e; bool undef; std::string name; };

struct ExprCtx {
  std::vector<VarInfo> vars;
  std::unordered_multimap<uint64_t, std::unique_ptr<Expr>> tabl;
  uint32_t nextId = 1;
  Z3_context z3 = nullptr;
  uint64_t epoch = 1;

  void reset() { tabl.clear(); vars.clear(); nextId = 1; }

  static uint64_t h(uint64_t x, uint64_t y) { x ^= y + 0x9e3779b97f4a7c15ull + (x << 6) + (x >> 2); x *= 0xff51afd7ed558ccdull; return x ^ (x >> 32); }

  E intern(Expr&& n) {
    uint64_t k = h(n.op * 131 + n.w, n.cv);
    k = h(k, (uint64_t)n.a); k = h(k, (uint64_t)n.b); k = h(k, (uint64_t)n.c);
    for (auto& b : n.wire) k = h(k, (uint64_t)b.atom * 67 + b.idx);
    for (auto t : n.table) k = h(k, t);
    auto r = tabl.equal_range(k);
    for (auto i = r.first; i != r.second; ++i) {
      Expr* x = i->second.get();
      if (x->op == n.op && x->w == n.w && x->cv == n.cv && x->a == n.a && x->b == n.b && x->c == n.c && x->wire == n.wire && x->table == n.table) return x;
    }
    auto* p = new Expr(std::move(n));
    p->id = nextId++;
    finish(p);
    tabl.emplace(k, std::unique_ptr<Expr>(p));
    return p;
  }
  void finish(Expr* p) {
    std::vector<int32_t> v;
    auto add = [&](E x) { if (x) v.insert(v.end(), x->vars.begin(), x->vars.end()); };
    if (p->op == O_VAR) v.push_back((int32_t)p->cv);
    add(p->a); add(p->b); add(p->c);
    E last = nullptr;
    for (auto& b : p->wire) if (b.atom && b.atom != last) { add(b.atom); last = b.atom; }
    std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end());
    p->vars = v;
    p->svar = v.empty() ? -1 : v.size() == 1 ? v[0] : -2;
    known(p);
    // exact known bits for single-variable expressions of small variables
    if (p->svar >= 0 && p->op != O_VAR && p->op != O_WIRE) {
      auto& t = stab(p); auto& vi = vars[p->svar];
      uint64_t o1 = ~0ull, o0 = ~0ull; unsigned n = 1u << vi.w;
      for (unsigned i = 0; i < n; i++) if (vi.dom.get(i)) { o1 &= t[i]; o0 &= ~t[i]; }
      p->k0 |= o0 & maskw(p->w); p->k1 |= o1 & maskw(p->w);
    }
  }
  void known(Expr* p) {
    uint64_t m = maskw(p->w);
    switch (p->op) {
    case O_CONST: p->k1 = p->cv; p->k0 = ~p->cv & m; break;
    case O_VAR: {
      auto& vi = vars[p->cv]; uint64_t o1 = m, o0 = m; unsigned n = 1u << vi.w;
      for (unsigned i = 0; i < n; i++) if (vi.dom.get(i)) { o1 &= i; o0 &= ~(uint64_t)i; }
      p->k0 = o0; p->k1 = o1; break; }
    case O_WIRE: for (unsigned i = 0; i < p->wire.size(); i++) { auto& b = p->wire[i]; if (!b.atom) { if (b.idx) p->k1 |= 1ull << i; else p->k0 |= 1ull << i; } } break;
    case O_ADD: addKnown(p->a->k0, p->a->k1, p->b->k0, p->b->k1, 0, m, p->k0, p->k1); break;
    case O_SUB: addKnown(p->a->k0, p->a->k1, p->b->k1, p->b->k0, 1, m, p->k0, p->k1); break;
    case O_AND: p->k0 = p->a->k0 | p->b->k0; p->k1 = p->a->k1 & p->b->k1; break;
    case O_OR: p->k0 = p->a->k0 & p->b->k0; p->k1 = p->a->k1 | p->b->k1; break;
    case O_XOR: { uint64_t k = (p->a->k0 | p->a->k1) & (p->b->k0 | p->b->k1); uint64_t v = p->a->k1 ^ p->b->k1; p->k1 = v & k; p->k0 = ~v & k & m; break; }
    case O_ITE: p->k0 = p->b->k0 & p->c->k0; p->k1 = p->b->k1 & p->c->k1; break;
    case O_TAB: { uint64_t o1 = m, o0 = m; for (auto t : p->table) { o1 &= t; o0 &= ~t; } p->k0 = o0; p->k1 = o1; break; }
    case O_MUL: { // trailing zeros, leading zeros
      unsigned tz = tzk(p->a) + tzk(p->b); if (tz > p->w) tz = p->w; p->k0 |= maskw(tz);
      unsigned la = lz(p->a), lb = lz(p->b); unsigned sz = (p->w - la) + (p->w - lb); if (sz < p->w) p->k0 |= m & ~maskw(sz); break; }
    case O_UDIV: { unsigned la = lz(p->a); p->k0 |= la ? (m & ~maskw(p->w - la)) : 0; break; }
    case O_LSHR: { unsigned la = lz(p->a); p->k0 |= la ? (m & ~maskw(p->w - la)) : 0; break; }
    case O_UREM: { unsigned la = std::max(lz(p->a), lz(p->b)); p->k0 |= la ? (m & ~maskw(p->w - la)) : 0; break; }
    case O_SDIV: if ((p->a->k0 >> (p->w - 1) & 1) && (p->b->k0 >> (p->w - 1) & 1)) { unsigned la = lz(p->a); p->k0 |= la ? (m & ~maskw(p->w - la)) : 0; } break;
    case O_SHL: { unsigned t = tzk(p->a); p->k0 |= maskw(t); break; }
    default: break;
    }
  }
  static unsigned tzk(E x) { uint64_t n = ~x->k0; return n ? std::min<unsigned>(__builtin_ctzll(n), x->w) : x->w; }
  static unsigned lz(E x) { uint64_t n = ~x->k0 & maskw(x->w); return n ? x->w - (64 - __builtin_clzll(n)) : x->w; }
  static void addKnown(uint64_t a0, uint64_t a1, uint64_t b0, uint64_t b1, int carry, uint64_t m, uint64_t& k0, uint64_t& k1) {
    a0 &= m; b0 &= m;
    uint64_t pz = (~a0 & m) + (~b0 & m) + carry, po = a1 + b1 + carry;
    uint64_t cz = ~(pz ^ a0 ^ b0 ^ 0), co = po ^ a1 ^ b1;
    // CarryKnownZero = ~(PossibleSumZero ^ LHS.Zero ^ RHS.Zero)
    cz = ~(pz ^ a0 ^ b0);
    uint64_t known = (a0 | a1) & (b0 | b1) & (cz | co) & m;
    k0 = ~pz & known; k1 = po & known;
  }

  // value table of a single-variable expression over all values of its variable
  const std::vector<uint64_t>& stab(E p) {
    if (p->stab) return *p->stab;
    auto& vi = vars[p->svar]; unsigned n = 1u << vi.w;
    auto t = std::make_unique<std::vector<uint64_t>>(n);
    auto get = [&](E x, unsigned i) -> uint64_t { return x->op == O_CONST ? x->cv : stab(x)[i]; };
    if (p->op == O_VAR) for (unsigned i = 0; i < n; i++) (*t)[i] = i;
    else if (p->op == O_WIRE) {
      for (auto& b : p->wire) if (b.atom) stab(b.atom);
      for (unsigned i = 0; i < n; i++) { uint64_t v = 0; for (unsigned k = 0; k < p->wire.size(); k++) { auto& b = p->wire[k]; uint64_t bit = b.atom ? (*b.atom->stab)[i] >> b.idx & 1 : b.idx; v |= bit << k; } (*t)[i] = v; }
    } else for (unsigned i = 0; i < n; i++)
      (*t)[i] = evalOp(p, p->a ? get(p->a, i) : 0, p->b ? get(p->b, i) : 0, p->c ? get(p->c, i) : 0);
    p->stab = std::move(t);
    return *p->stab;
  }
  static int64_t sx(uint64_t v, unsigned w) { return w >= 64 ? (int64_t)v : (int64_t)(v << (64 - w)) >> (64 - w); }
  static uint64_t evalBin(Op op, unsigned w, uint64_t a, uint64_t b) {
    uint64_t m = maskw(w);
    switch (op) {
    case O_ADD: return (a + b) & m; case O_SUB: return (a - b) & m; case O_MUL: return (a * b) & m;
    case O_UDIV: return b ? a / b : m; case O_UREM: return b ? a % b : a;
    case O_SDIV: { int64_t x = sx(a, w), y = sx(b, w); if (!y) return x < 0 ? 1 : m; if (y == -1) return (0 - a) & m; return (uint64_t)(x / y) & m; }
    case O_SREM: { int64_t x = sx(a, w), y = sx(b, w); if (!y) return a; if (y == -1) return 0; return (uint64_t)(x % y) & m; }
    case O_AND: return a & b; case O_OR: return a | b; case O_XOR: return a ^ b;
    case O_SHL: return b >= w ? 0 : (a << b) & m; case O_LSHR: return b >= w ? 0 : a >> b;
    case O_ASHR: return (uint64_t)(sx(a, w) >> (b >= w ? w - 1 : b)) & m;
    case O_EQ: return a == b; case O_ULT: return a < b; case O_ULE: return a <= b;
    case O_SLT: return sx(a, w) < sx(b, w); case O_SLE: return sx(a, w) <= sx(b, w);
    default: abort();
    }
  }
  static uint64_t evalOp(E p, uint64_t a, uint64_t b, uint64_t c) {
    if (p->op == O_ITE) return a ? b : c;
    if (p->op == O_TAB) return a < p->table.size() ? p->table[a] : 0;
    return evalBin(p->op, p->a->w, a, b);
  }
  uint64_t eval(E p, const std::vector<uint8_t>& m) { epoch++; return ev(p, m); }
  uint64_t ev(E p, const std::vector<uint8_t>& m) {
    if (p->op == O_CONST) return p->cv;
    if (p->op == O_VAR) return p->cv < m.size() ? m[p->cv] : 0;
    if (p->evEpoch == epoch) return p->ev;
    uint64_t r = 0;
    if (p->op == O_WIRE) { E last = nullptr; uint64_t lv = 0; for (unsigned k = 0; k < p->wire.size(); k++) { auto& b = p->wire[k]; uint64_t bit; if (b.atom) { if (b.atom != last) { last = b.atom; lv = ev(last, m); } bit = lv >> b.idx & 1; } else bit = b.idx; r |= bit << k; } }
    else if (p->op == O_ITE) r = ev(p->a, m) ? ev(p->b, m) : ev(p->c, m);
    else r = evalOp(p, ev(p->a, m), p->b ? ev(p->b, m) : 0, 0);
    p->evEpoch = epoch; p->ev = r; return r;
  }

  // ---- constructors
  E konst(unsigned w, uint64_t v) { Expr n; n.op = O_CONST; n.w = w; n.cv = v & maskw(w); return intern(std::move(n)); }
  E toE(Val v, unsigned w) { return v.e ? v.e : konst(w, v.c); }
  static Val fromE(E e) { if (e->op == O_CONST) return Val{e->cv, nullptr}; return Val{0, e}; }
  int newVar(unsigned w, const Dom& d, bool undef, const std::string& nm) {
    int id = vars.size(); vars.push_back(VarInfo{(uint8_t)w, d, nullptr, undef, nm});
    Expr n; n.op = O_VAR; n.w = w; n.cv = id; vars[id].e = intern(std::move(n)); return id;
  }
  Val node(Op op, unsigned w, E a, E b = nullptr, E c = nullptr) {
    Expr n; n.op = op; n.w = w; n.a = a; n.b = b; n.c = c; E e = intern(std::move(n));
    uint64_t m = maskw(w); if (((e->k0 | e->k1) & m) == m) return Val{e->k1 & m, nullptr};
    return Val{0, e};
  }
  void bitsOf(Val v, unsigned w, Bit* o) {
    if (!v.e) { for (unsigned i = 0; i < w; i++) o[i] = Bit{nullptr, (uint8_t)(v.c >> i & 1)}; return; }
    if (v.e->op == O_WIRE) { for (unsigned i = 0; i < w; i++) o[i] = v.e->wire[i]; return; }
    for (unsigned i = 0; i < w; i++) {
      if (v.e->k0 >> i & 1) o[i] = Bit{nullptr, 0}; else if (v.e->k1 >> i & 1) o[i] = Bit{nullptr, 1};
      else o[i] = Bit{v.e, (uint8_t)i};
    }
  }
  Val wire(const Bit* b, unsigned w) {
    bool allc = true; uint64_t cv = 0;
    for (unsigned i = 0; i < w; i++) { if (b[i].atom) { allc = false; break; } cv |= (uint64_t)b[i].idx << i; }
    if (allc) return Val{cv, nullptr};
    // identity?
    E at = nullptr; for (unsigned i = 0; i < w; i++) if (b[i].atom) { at = b[i].atom; break; }
    if (at->w == w) { bool id = true;
      for (unsigned i = 0; i < w && id; i++) {
        if (b[i].atom) id = b[i].atom == at && b[i].idx == i;
        else id = b[i].idx ? (at->k1 >> i & 1) : (at->k0 >> i & 1);
      }
      if (id) return Val{0, at}; }
    Expr n; n.op = O_WIRE; n.w = w; n.wire.assign(b, b + w);
    return Val{0, intern(std::move(n))};
  }
  static uint64_t kz(Val v, unsigned w) { return v.e ? v.e->k0 : ~v.c & maskw(w); }
  static uint64_t ko(Val v) { return v.e ? v.e->k1 : v.c; }
  static uint64_t umin(Val v) { return ko(v); }
  static uint64_t umax(Val v, unsigned w) { return ~kz(v, w) & maskw(w); }

  Val extract(Val v, unsigned w, unsigned lo, unsigned n) {
    if (!v.e) return C(v.c >> lo, n);
    if (lo == 0 && n == w) return v;
    Bit b[64]; bitsOf(v, w, b); return wire(b + lo, n);
  }
  Val zext(Val v, unsigned w, unsigned to) { if (!v.e) return v; if (w == to) return v; Bit b[64]; bitsOf(v, w, b); for (unsigned i = w; i < to; i++) b[i] = Bit{nullptr, 0}; return wire(b, to); }
  Val sext(Val v, unsigned w, unsigned to) { if (!v.e) return C((uint64_t)sx(v.c, w), to); if (w == to) return v; Bit b[64]; bitsOf(v, w, b); for (unsigned i = w; i < to; i++) b[i] = b[w - 1]; return wire(b, to); }
  Val concat(Val hi, unsigned wh, Val lo, unsigned wl) { if (!hi.e && !lo.e) return C(hi.c << wl | lo.c, wh + wl); Bit b[64]; bitsOf(lo, wl, b); bitsOf(hi, wh, b + wl); return wire(b, wh + wl); }

  Val orDisjoint(Val a, Val b, unsigned w) {
    Bit x[64], y[64]; bitsOf(a, w, x); bitsOf(b, w, y);
    for (unsigned i = 0; i < w; i++) if (!x[i].atom && !x[i].idx) x[i] = y[i];
    return wire(x, w);
  }
  Val bin(Op op, Val a, Val b, unsigned w) {
    if (!a.e && !b.e) return Val{evalBin(op, w, a.c, b.c), nullptr};
    uint64_t m = maskw(w);
    switch (op) {
    case O_ADD: {
      if (!a.e) std::swap(a, b);
      if (!b.e && b.c == 0) return a;
      if (!((umax(a, w)) & umax(b, w))) return orDisjoint(a, b, w);
      if (!b.e) { if (a.e->op == O_ADD && a.e->b->op == O_CONST) return bin(O_ADD, fromE(a.e->a), C(a.e->b->cv + b.c, w), w); return node(O_ADD, w, a.e, konst(w, b.c)); }
      if (a.e->op == O_ADD && a.e->b->op == O_CONST) return bin(O_ADD, bin(O_ADD, fromE(a.e->a), b, w), C(a.e->b->cv, w), w);
      if (b.e->op == O_ADD && b.e->b->op == O_CONST) return bin(O_ADD, bin(O_ADD, a, fromE(b.e->a), w), C(b.e->b->cv, w), w);
      if (a.e->id > b.e->id) std::swap(a, b);
      return node(O_ADD, w, a.e, b.e); }
    case O_SUB: {
      if (a.e && a.e == b.e) return C(0, w);
      if (!b.e) {
        if (b.c == 0) return a;
        if (!(b.c & ~a.e->k1)) { Bit x[64]; bitsOf(a, w, x); for (unsigned i = 0; i < w; i++) if (b.c >> i & 1) x[i] = Bit{nullptr, 0}; return wire(x, w); }
        return bin(O_ADD, a, C(0 - b.c, w), w);
      }
      if (a.e && a.e->op == O_ADD && a.e->b->op == O_CONST) return bin(O_ADD, bin(O_SUB, fromE(a.e->a), b, w), C(a.e->b->cv, w), w);
      if (b.e->op == O_ADD && b.e->b->op == O_CONST) return bin(O_ADD, bin(O_SUB, a, fromE(b.e->a), w), C(0 - b.e->b->cv, w), w);
      return node(O_SUB, w, toE(a, w), b.e); }
    case O_MUL:
      if (!a.e) std::swap(a, b);
      if (!b.e) { if (b.c == 0) return C(0, w); if (b.c == 1) return a; if (!(b.c & (b.c - 1))) return bin(O_SHL, a, C(__builtin_ctzll(b.c), w), w); }
      return node(O_MUL, w, a.e, toE(b, w));
    case O_UDIV: if (!b.e && b.c && !(b.c & (b.c - 1))) return bin(O_LSHR, a, C(__builtin_ctzll(b.c), w), w); return node(op, w, toE(a, w), toE(b, w));
    case O_UREM: if (!b.e && b.c && !(b.c & (b.c - 1))) return bin(O_AND, a, C(b.c - 1, w), w); return node(op, w, toE(a, w), toE(b, w));
    case O_SREM: if (!b.e && b.c && !(b.c & (b.c - 1)) && (kz(a, w) >> (w - 1) & 1)) return bin(O_AND, a, C(b.c - 1, w), w); return node(op, w, toE(a, w), toE(b, w));
    case O_SDIV: if (!b.e && b.c && !(b.c & (b.c - 1)) && (kz(a, w) >> (w - 1) & 1) && b.c >> (w - 1) == 0) return bin(O_LSHR, a, C(__builtin_ctzll(b.c), w), w); return node(op, w, toE(a, w), toE(b, w));
    case O_AND: case O_OR: case O_XOR: {
      if (a.e && a.e == b.e) return op == O_XOR ? C(0, w) : a;
      if (op == O_XOR) { if (!a.e) std::swap(a, b); if (!b.e) { if (b.c == 0) return a; if (a.e->op == O_XOR && a.e->b->op == O_CONST) return bin(O_XOR, fromE(a.e->a), C(a.e->b->cv ^ b.c, w), w); } }
      Bit x[64], y[64]; bitsOf(a, w, x); bitsOf(b, w, y); bool ok = true;
      for (unsigned i = 0; i < w && ok; i++) {
        bool ca = !x[i].atom, cb = !y[i].atom;
        if (!ca && !cb) { if (x[i] == y[i]) { if (op == O_XOR) x[i] = Bit{nullptr, 0}; continue; } ok = false; break; }
        if (ca && cb) { uint8_t p = x[i].idx, q = y[i].idx; x[i].idx = op == O_AND ? p & q : op == O_OR ? p | q : p ^ q; continue; }
        uint8_t k = ca ? x[i].idx : y[i].idx; Bit s = ca ? y[i] : x[i];
        if (op == O_AND) x[i] = k ? s : Bit{nullptr, 0};
        else if (op == O_OR) x[i] = k ? Bit{nullptr, 1} : s;
        else { if (k) ok = false; else x[i] = s; }
      }
      if (ok) return wire(x, w);
      E p = toE(a, w), q = toE(b, w); if (p->op == O_CONST || (q->op != O_CONST && p->id > q->id)) std::swap(p, q);
      return node(op, w, p, q); }
    case O_SHL: case O_LSHR: case O_ASHR:
      if (!b.e) {
        unsigned s = b.c; if (s == 0) return a;
        if (s >= w) { if (op != O_ASHR) return C(0, w); s = w - 1; }
        Bit x[64], y[64]; bitsOf(a, w, x);
        for (unsigned i = 0; i < w; i++) {
          if (op == O_SHL) y[i] = i >= s ? x[i - s] : Bit{nullptr, 0};
          else y[i] = i + s < w ? x[i + s] : op == O_LSHR ? Bit{nullptr, 0} : x[w - 1];
        }
        return wire(y, w);
      }
      return node(op, w, toE(a, w), b.e);
    default: return cmp(op, a, b, w);
    }
    (void)m;
  }
  Val boolv(bool b) { return Val{b, nullptr}; }
  Val lnot(Val a) { return bin(O_XOR, a, C(1, 1), 1); }
  Val cmp(Op op, Val a, Val b, unsigned w) {
    if (!a.e && !b.e) return boolv(evalBin(op, w, a.c, b.c));
    uint64_t m = maskw(w);
    if (op == O_EQ) {
      if (a.e == b.e && a.e) return boolv(true);
      if ((ko(a) & kz(b, w)) | (ko(b) & kz(a, w))) return boolv(false);
      if (!a.e) std::swap(a, b);
      if (!b.e) {
        E x = a.e;
        if (w == 1) return b.c ? a : lnot(a);
        if (x->op == O_ADD && x->b->op == O_CONST) return cmp(O_EQ, fromE(x->a), C(b.c - x->b->cv, w), w);
        if (x->op == O_ITE && x->b->op == O_CONST && x->c->op == O_CONST) {
          bool p = x->b->cv == b.c, q = x->c->cv == b.c; if (p && q) return boolv(true); if (!p && !q) return boolv(false);
          return p ? fromE(x->a) : lnot(fromE(x->a)); }
        if (x->op == O_SUB && b.c == 0) return cmp(O_EQ, fromE(x->a), fromE(x->b), w);
        if (x->op == O_WIRE) { // keep only unknown bits, dedupe
          Bit y[64]; unsigned n = 0; uint64_t cv = 0;
          for (unsigned i = 0; i < w; i++) { auto& bt = x->wire[i]; if (!bt.atom) continue; uint8_t want = b.c >> i & 1; bool dup = false;
            for (unsigned j = 0; j < n; j++) if (y[j] == bt) { if ((cv >> j & 1) != want) return boolv(false); dup = true; break; }
            if (!dup) { y[n] = bt; cv |= (uint64_t)want << n; n++; } }
          if (n < w) { Val nv = wire(y, n); return cmp(O_EQ, nv, C(cv, n), n); }
        }
        return node(O_EQ, 1, x, konst(w, b.c));
      }
      if (a.e->op == O_ADD && a.e->b->op == O_CONST) {
        if (b.e->op == O_ADD && b.e->b->op == O_CONST) return cmp(O_EQ, bin(O_ADD, fromE(a.e->a), C(a.e->b->cv - b.e->b->cv, w), w), fromE(b.e->a), w);
        if (a.e->a == b.e) return boolv(false);
      } else if (b.e->op == O_ADD && b.e->b->op == O_CONST) { if (b.e->a == a.e) return boolv(false); }
      if (a.e->id > b.e->id) std::swap(a, b);
      return node(O_EQ, 1, a.e, b.e);
    }
    if (op == O_SLT || op == O_SLE) {
      uint64_t s = 1ull << (w - 1);
      int sa = (ko(a) & s) ? 1 : (kz(a, w) & s) ? 0 : -1, sb = (ko(b) & s) ? 1 : (kz(b, w) & s) ? 0 : -1;
      if (sa >= 0 && sb >= 0) { if (sa != sb) return boolv(sa == 1); return cmp(op == O_SLT ? O_ULT : O_ULE, a, b, w); }
      if (a.e && a.e == b.e) return boolv(op == O_SLE);
      return node(op, 1, toE(a, w), toE(b, w));
    }
    if (a.e && a.e == b.e) return boolv(op == O_ULE);
    if (op == O_ULT) { if (umax(a, w) < umin(b)) return boolv(true); if (umin(a) >= umax(b, w)) return boolv(false); }
    else { if (umax(a, w) <= umin(b)) return boolv(true); if (umin(a) > umax(b, w)) return boolv(false); }
    (void)m;
    return node(op, 1, toE(a, w), toE(b, w));
  }
  Val ite(Val c, Val a, Val b, unsigned w) {
    if (!c.e) return c.c ? a : b;
    if (a.e == b.e && (a.e || a.c == b.c)) return a;
    if (w == 1) {
      if (!a.e && !b.e) return a.c ? c : lnot(c);
      if (!a.e) return a.c ? bin(O_OR, c, b, 1) : bin(O_AND, lnot(c), b, 1);
      if (!b.e) return b.c ? bin(O_OR, lnot(c), a, 1) : bin(O_AND, c, a, 1);
    }
    return node(O_ITE, w, c.e, toE(a, w), toE(b, w));
  }
  Val tab(const std::vector<uint64_t>& t, Val idx, unsigned iw, unsigned w) {
    if (!idx.e) return C(idx.c < t.size() ? t[idx.c] : 0, w);
    bool same = true; for (auto x : t) if (x != t[0]) same = false;
    if (same) return C(t[0], w);
    Expr n; n.op = O_TAB; n.w = w; n.a = toE(idx, iw); n.table = t; E e = intern(std::move(n));
    if (((e->k0 | e->k1) & maskw(w)) == maskw(w)) return Val{e->k1 & maskw(w), nullptr};
    return Val{0, e};
  }

  // ---- z3
  Z3_ast zc(unsigned w, uint64_t v) { return Z3_mk_unsigned_int64(z3, v, Z3_mk_bv_sort(z3, w)); }
  Z3_ast b2v(Z3_ast b) { return Z3_mk_ite(z3, b, zc(1, 1), zc(1, 0)); }
  Z3_ast toZ3(E p) {
    if (p->z) return p->z;
    Z3_ast r = nullptr;
    switch (p->op) {
    case O_CONST: r = zc(p->w, p->cv); break;
    case O_VAR: { char nm[32]; snprintf(nm, sizeof nm, "v%llu", (unsigned long long)p->cv); r = Z3_mk_const(z3, Z3_mk_string_symbol(z3, nm), Z3_mk_bv_sort(z3, p->w)); break; }
    case O_WIRE: {
      // pieces from msb down
      int i = p->w - 1;
      while (i >= 0) {
        auto& b = p->wire[i]; int j = i; Z3_ast piece;
        if (!b.atom) { uint64_t v = 0; while (j >= 0 && !p->wire[j].atom) { v = v << 1 | p->wire[j].idx; j--; } piece = zc(i - j, v); }
        else { while (j - 1 >= 0 && p->wire[j - 1].atom == b.atom && p->wire[j - 1].idx + 1 == p->wire[j].idx) j--;
          piece = toZ3(b.atom); if (p->wire[j].idx != 0 || b.idx != b.atom->w - 1) piece = Z3_mk_extract(z3, b.idx, p->wire[j].idx, piece); j--; }
        r = r ? Z3_mk_concat(z3, r, piece) : piece; i = j;
      }
      break; }
    case O_ITE: r = Z3_mk_ite(z3, zbool(p->a), toZ3(p->b), toZ3(p->c)); break;
    case O_TAB: { Z3_ast ix = toZ3(p->a); r = zc(p->w, p->table.back());
      for (int i = (int)p->table.size() - 2; i >= 0; i--) r = Z3_mk_ite(z3, Z3_mk_eq(z3, ix, zc(p->a->w, i)), zc(p->w, p->table[i]), r); break; }
    case O_EQ: case O_ULT: case O_ULE: case O_SLT: case O_SLE: r = b2v(zbool(p)); break;
    default: { Z3_ast a = toZ3(p->a), b = toZ3(p->b);
      switch (p->op) {
      case O_ADD: r = Z3_mk_bvadd(z3, a, b); break; case O_SUB: r = Z3_mk_bvsub(z3, a, b); break; case O_MUL: r = Z3_mk_bvmul(z3, a, b); break;
      case O_UDIV: r = Z3_mk_bvudiv(z3, a, b); break; case O_SDIV: r = Z3_mk_bvsdiv(z3, a, b); break;
      case O_UREM: r = Z3_mk_bvurem(z3, a, b); break; case O_SREM: r = Z3_mk_bvsrem(z3, a, b); break;
      case O_AND: r = Z3_mk_bvand(z3, a, b); break; case O_OR: r = Z3_mk_bvor(z3, a, b); break; case O_XOR: r = Z3_mk_bvxor(z3, a, b); break;
      case O_SHL: r = Z3_mk_bvshl(z3, a, b); break; case O_LSHR: r = Z3_mk_bvlshr(z3, a, b); break; case O_ASHR: r = Z3_mk_bvashr(z3, a, b); break;
      default: abort(); } }
    }
    return p->z = r;
  }
  Z3_ast zbool(E p) {
    switch (p->op) {
    case O_EQ: return Z3_mk_eq(z3, toZ3(p->a), toZ3(p->b));
    case O_ULT: return Z3_mk_bvult(z3, toZ3(p->a), toZ3(p->b)); case O_ULE: return Z3_mk_bvule(z3, toZ3(p->a), toZ3(p->b));
    case O_SLT: return Z3_mk_bvslt(z3, toZ3(p->a), toZ3(p->b)); case O_SLE: return Z3_mk_bvsle(z3, toZ3(p->a), toZ3(p->b));
    case O_XOR: if (p->b->op == O_CONST && p->b->cv == 1 && p->w == 1) return Z3_mk_not(z3, zbool(p->a)); break;
    case O_AND: { Z3_ast x[2] = {zbool(p->a), zbool(p->b)}; if (p->w == 1) return Z3_mk_and(z3, 2, x); break; }
    case O_OR: { Z3_ast x[2] = {zbool(p->a), zbool(p->b)}; if (p->w == 1) return Z3_mk_or(z3, 2, x); break; }
    default: break;
    }
    return Z3_mk_eq(z3, toZ3(p), zc(1, 1));
  }
};
