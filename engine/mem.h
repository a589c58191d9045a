// Copy-on-write byte-addressed memory: objects of 256-byte chunks, per byte concrete / symbolic / uninitialised.
#pragma once
#include "expr.h"
#include <cstdlib>
#include <cstring>

static const u32 CH = 256;
#define UNINIT ((E)1)
static const u64 OFF0 = 0x10000;
static inline u64 mkAddr(u64 id, u64 off) { return (id << 32) + OFF0 + off; }

struct Chunk {
  u32 rc;
  u32 n;
  E*  sym; // null: all bytes concrete. entry null: concrete; UNINIT; else 8-bit expression
  u8  data[];
  static Chunk* make(u32 n, bool uninit) {
    Chunk* c = (Chunk*)malloc(sizeof(Chunk) + n);
    c->rc    = 1;
    c->n     = n;
    c->sym   = nullptr;
    memset(c->data, 0, n);
    if (uninit) {
      c->sym = (E*)malloc(n * sizeof(E));
      for (u32 i = 0; i < n; i++) c->sym[i] = UNINIT;
    }
    return c;
  }
  Chunk* clone() const {
    Chunk* c = (Chunk*)malloc(sizeof(Chunk) + n);
    c->rc    = 1;
    c->n     = n;
    c->sym   = nullptr;
    memcpy(c->data, data, n);
    if (sym) {
      c->sym = (E*)malloc(n * sizeof(E));
      memcpy(c->sym, sym, n * sizeof(E));
    }
    return c;
  }
  void unref() {
    if (--rc == 0) {
      free(sym);
      free(this);
    }
  }
};

enum ObjKind : u8 { O_GLOBAL, O_STACK, O_HEAP, O_FUNC, O_FREED };

struct Obj {
  u32         rc;
  u32         id;
  u64         size;
  ObjKind     kind;
  bool        ro;
  bool        zero;  // null chunks read as zero (else uninitialised)
  u8          alloc; // 0 n/a, 1 malloc, 2 new, 3 new[]
  const void* tag;   // llvm::Function / GlobalVariable / allocation site
  u32         nch;
  Chunk*      ch[];
  static Obj* make(u32 id, u64 size, ObjKind k, bool zero) {
    u32  n = (u32)((size + CH - 1) / CH);
    Obj* o = (Obj*)malloc(sizeof(Obj) + n * sizeof(Chunk*));
    o->rc = 1; o->id = id; o->size = size; o->kind = k; o->ro = false; o->zero = zero; o->alloc = 0; o->tag = nullptr; o->nch = n;
    memset(o->ch, 0, n * sizeof(Chunk*));
    return o;
  }
  Obj* clone() const {
    Obj* o = (Obj*)malloc(sizeof(Obj) + nch * sizeof(Chunk*));
    memcpy((void*)o, (const void*)this, sizeof(Obj) + nch * sizeof(Chunk*));
    o->rc = 1;
    for (u32 i = 0; i < nch; i++) if (ch[i]) ch[i]->rc++;
    return o;
  }
  void unref() {
    if (--rc == 0) {
      for (u32 i = 0; i < nch; i++) if (ch[i]) ch[i]->unref();
      free(this);
    }
  }
  // writable chunk (object must be uniquely owned)
  Chunk* wch(u32 i) {
    Chunk* c = ch[i];
    if (!c) {
      u32 n = (u32)(size - (u64)i * CH < CH ? size - (u64)i * CH : CH);
      return ch[i] = Chunk::make(n, !zero);
    }
    if (c->rc > 1) {
      Chunk* d = c->clone();
      c->rc--;
      return ch[i] = d;
    }
    return c;
  }
};

struct Page {
  static const u32 N = 64;
  u32  rc;
  Obj* o[N];
  static Page* make() {
    Page* p = (Page*)calloc(1, sizeof(Page));
    p->rc   = 1;
    return p;
  }
  Page* clone() const {
    Page* p = (Page*)malloc(sizeof(Page));
    *p      = *this;
    p->rc   = 1;
    for (auto* x: p->o) if (x) x->rc++;
    return p;
  }
  void unref() {
    if (--rc == 0) {
      for (auto* x: o) if (x) x->unref();
      free(this);
    }
  }
};

struct Memory {
  std::vector<Page*> pages;
  u32                nextId = 1;
  Memory() {}
  Memory(const Memory& m) : pages(m.pages), nextId(m.nextId) {
    for (auto* p: pages) if (p) p->rc++;
  }
  Memory& operator=(const Memory&) = delete;
  ~Memory() {
    for (auto* p: pages) if (p) p->unref();
  }
  const Obj* get(u32 id) const {
    u32 pi = id / Page::N;
    if (pi >= pages.size() || !pages[pi]) return nullptr;
    return pages[pi]->o[id % Page::N];
  }
  Page* wpage(u32 pi) {
    if (pi >= pages.size()) pages.resize(pi + 1, nullptr);
    if (!pages[pi]) pages[pi] = Page::make();
    else if (pages[pi]->rc > 1) {
      Page* n = pages[pi]->clone();
      pages[pi]->rc--;
      pages[pi] = n;
    }
    return pages[pi];
  }
  Obj* getW(u32 id) { // object must exist
    Page* p = wpage(id / Page::N);
    Obj*& o = p->o[id % Page::N];
    if (o->rc > 1) {
      Obj* n = o->clone();
      o->rc--;
      o = n;
    }
    return o;
  }
  Obj* alloc(u64 size, ObjKind k, bool zero) {
    u32  id = nextId++;
    Obj* o  = Obj::make(id, size, k, zero);
    Page* p = wpage(id / Page::N);
    p->o[id % Page::N] = o;
    return o;
  }
  void release(u32 id) { // becomes a tombstone
    Page* p = wpage(id / Page::N);
    Obj*& o = p->o[id % Page::N];
    o->unref();
    o = nullptr;
    bool any = false;
    for (auto* x: p->o) if (x) { any = true; break; }
    if (!any && (id / Page::N + 1) * Page::N < nextId) {
      p->unref();
      pages[id / Page::N] = nullptr;
    }
  }
  // raw byte access; bounds must have been checked
  static inline void readByte(const Obj* o, u64 off, u8& d, E& s) {
    const Chunk* c = o->ch[off / CH];
    if (!c) { d = 0; s = o->zero ? nullptr : UNINIT; return; }
    u32 i = off % CH;
    d     = c->data[i];
    s     = c->sym ? c->sym[i] : nullptr;
  }
  static inline void writeByte(Obj* o, u64 off, u8 d, E s) {
    Chunk* c = o->wch((u32)(off / CH));
    u32    i = off % CH;
    if (s && !c->sym) c->sym = (E*)calloc(c->n, sizeof(E));
    c->data[i] = d;
    if (c->sym) c->sym[i] = s;
  }
};
