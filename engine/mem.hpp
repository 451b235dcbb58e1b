// Copy-on-write symbolic memory: a persistent radix tree of objects made of
// byte cells, each referring to a byte of a term.
#pragma once
#include "term.hpp"

struct RC { int rc = 0; virtual ~RC() {} };
template <class T> struct Ref {
    T* p;
    Ref(T* q = nullptr) : p(q) { if (p) ++p->rc; }
    Ref(const Ref& o) : p(o.p) { if (p) ++p->rc; }
    Ref(Ref&& o) : p(o.p) { o.p = nullptr; }
    ~Ref() { if (p && --p->rc == 0) delete p; }
    Ref& operator=(const Ref& o) { if (o.p) ++o.p->rc; if (p && --p->rc == 0) delete p; p = o.p; return *this; }
    Ref& operator=(Ref&& o) { std::swap(p, o.p); return *this; }
    T* operator->() const { return p; }
    T& operator*() const { return *p; }
    explicit operator bool() const { return p; }
    bool operator==(const Ref& o) const { return p == o.p; }
};

struct Cell { Term* t; uint32_t i; };

enum ObjKind : uint8_t { O_HEAP, O_NEWARR, O_STACK, O_GLOBAL, O_CONST, O_FUNC, O_MALLOC };

struct Obj : RC {
    u64 size;             // number of cells (capacity bound)
    Term* symSize;        // symbolic size or null
    Term* dead;           // null = alive; otherwise condition under which freed
    ObjKind kind;
    bool shared;          // environment may change it (rely/guarantee mode)
    u64 loAddr, hiAddr, frAddr;   // bound objects and 'frozen' flag cell for shared mode
    std::string name;
    std::vector<Cell> cells;
    Obj() : size(0), symSize(nullptr), dead(nullptr), kind(O_HEAP), shared(false), loAddr(0), hiAddr(0), frAddr(0) {}
};

const int FAN = 64;
struct Node0 : RC { Ref<Obj> ch[FAN]; };
struct Node1 : RC { Ref<Node0> ch[FAN]; };
struct Node2 : RC { Ref<Node1> ch[FAN]; };
struct Node3 : RC { Ref<Node2> ch[FAN]; };

struct Mem {
    Ref<Node3> root;
    Mem() : root(new Node3) {}
    Obj* get(u64 id) const {
        Node2* n2 = root->ch[(id >> 18) & 63].p; if (!n2) return nullptr;
        Node1* n1 = n2->ch[(id >> 12) & 63].p; if (!n1) return nullptr;
        Node0* n0 = n1->ch[(id >> 6) & 63].p; if (!n0) return nullptr;
        return n0->ch[id & 63].p;
    }
    template <class N> static N* own(Ref<N>& r) {
        if (!r) r = Ref<N>(new N);
        else if (r->rc > 1) { N* c = new N(*r.p); c->rc = 0; r = Ref<N>(c); }
        return r.p;
    }
    Ref<Obj>& slot(u64 id) {
        if (id >> 24) throw Unsupported("too many memory objects");
        Node3* a = own(root);
        Node2* b = own(a->ch[(id >> 18) & 63]);
        Node1* c = own(b->ch[(id >> 12) & 63]);
        Node0* d = own(c->ch[(id >> 6) & 63]);
        return d->ch[id & 63];
    }
    Obj* mut(u64 id) { return own(slot(id)); }
    void set(u64 id, Obj* o) { slot(id) = Ref<Obj>(o); }
    void erase(u64 id) { slot(id) = Ref<Obj>(); }
};
