// Included before lib/main.cpp: its files and console are memory of the harness.
#pragma once
#include <fstream>
#include <iostream>
#include <istream>
#include <ostream>
#include <streambuf>
#include <string>
struct VpFile { const char* name; char* text; unsigned long size, capacity; bool opens; unsigned long opened; };
VpFile* vp_file(const char* name);      // of the harness
namespace std {
struct VpIn : streambuf { void set(char* p, unsigned long n) { setg(p, p, p + n); } };
struct VpOut : streambuf {
    VpFile* f = nullptr;
    void set(VpFile* x) { f = x; setp(x->text, x->text + x->capacity); }
    streamsize xsputn(const char* s, streamsize n) override { for (streamsize i = 0; i < n; ++i) sputc(s[i]); return n; }
    int sync() override { if (f) f->size = pptr() - pbase(); return 0; }
};
class vp_ifstream : public istream {
    VpIn b; bool is = false;
public:
    vp_ifstream() : istream(&b) {}
    explicit vp_ifstream(const string& n, ios_base::openmode = ios_base::in) : istream(&b) { open(n); }
    explicit vp_ifstream(const char* n, ios_base::openmode = ios_base::in) : istream(&b) { open(n); }
    void open(const string& n, ios_base::openmode = ios_base::in) { VpFile* f = vp_file(n.c_str()); if (f && f->opens) { b.set(f->text, f->size); f->opened++; is = true; } else setstate(ios_base::failbit); }
    bool is_open() const { return is; }
    void close() { if (!is) setstate(ios_base::failbit); is = false; }
};
class vp_ofstream : public ostream {
    VpOut b; bool is = false;
public:
    vp_ofstream() : ostream(&b) {}
    explicit vp_ofstream(const string& n, ios_base::openmode = ios_base::out) : ostream(&b) { open(n); }
    explicit vp_ofstream(const char* n, ios_base::openmode = ios_base::out) : ostream(&b) { open(n); }
    ~vp_ofstream() { b.pubsync(); }
    void open(const string& n, ios_base::openmode = ios_base::out) { VpFile* f = vp_file(n.c_str()); if (f && f->opens) { b.set(f); f->opened++; f->size = 0; is = true; } else setstate(ios_base::failbit); }
    bool is_open() const { return is; }
    void close() { b.pubsync(); if (!is) setstate(ios_base::failbit); is = false; }
};
ostream& vp_console();
}
#ifdef VP_TOOL
#define ifstream vp_ifstream
#define ofstream vp_ofstream
#define cout vp_console()
#define cerr vp_console()
#define main tool_main
#endif
