#pragma once
#include "expr.h"
#include "solver.h"
#include <memory>
#include <set>

struct Val { u64 c; Expr* e; };
static inline Val cv(u64 c) { return Val{c, nullptr}; }
static inline Val mv(Expr* e) { if (isC(e) && e->w <= 64) return Val{e->lo, nullptr}; return Val{0, e}; }
static inline Expr* ex(const Val& v, unsigned w) { return v.e ? v.e : eConst(v.c, w); }

static const unsigned PG = 512;
enum : uint8_t { FL_NONE = 0, FL_OK = 1, FL_SYM = 2, FL_RO = 4 };
struct Page {
  int rc; Expr** sym; uint8_t data[PG]; uint8_t fl[PG];
  static Page* make() { Page* p = (Page*)calloc(1, sizeof(Page)); p->rc = 1; return p; }
  Page* clone() {
    Page* p = (Page*)malloc(sizeof(Page)); memcpy(p, this, sizeof(Page)); p->rc = 1;
    if (sym) { p->sym = (Expr**)malloc(sizeof(Expr*) * PG); memcpy(p->sym, sym, sizeof(Expr*) * PG); }
    return p;
  }
  void unref() { if (--rc == 0) { free(sym); free(this); } }
};
static const unsigned NREG = 16; // regions of 256 MiB
struct Mem {
  std::vector<Page*> reg[NREG];
  Mem() {}
  Mem(const Mem& o) { for (unsigned i = 0; i < NREG; i++) { reg[i] = o.reg[i]; for (auto* p : reg[i]) if (p) p->rc++; } }
  Mem& operator=(const Mem&) = delete;
  ~Mem() { for (auto& r : reg) for (auto* p : r) if (p) p->unref(); }
  inline Page* rd(u64 a) { u64 r = a >> 28; if (r >= NREG) return nullptr; u64 i = (a & 0x0fffffff) / PG; return i < reg[r].size() ? reg[r][i] : nullptr; }
  inline Page* wr(u64 a) {
    u64 r = a >> 28; u64 i = (a & 0x0fffffff) / PG;
    if (i >= reg[r].size()) reg[r].resize(i + 1 + i / 4, nullptr);
    Page*& p = reg[r][i]; if (!p) p = Page::make(); else if (p->rc > 1) { Page* q = p->clone(); p->rc--; p = q; }
    return p;
  }
};

struct CFunc;
struct Frame { CFunc* f; int pc; int base; int retSlot; int nret; u64 sp; };
struct SymIn { std::string name; int kind; unsigned w; std::vector<Expr*> v; }; // kind 0 int, 1 bytes
struct State {
  std::vector<Frame> fr; std::vector<Val> rs;
  Mem mem; u64 sp, hp;
  std::vector<Expr*> pc; std::shared_ptr<Model> model;
  std::vector<SymIn> in; std::vector<Val> trace; std::set<std::string> reach;
  u64 steps = 0; unsigned forks = 0; int expectPanic = 0; unsigned allocs = 0;
  std::unordered_map<std::string, int> names;
  std::vector<std::string> notes;
};
