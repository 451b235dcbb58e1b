// Stand-ins for the compiled parts of libstdc++ streams and libc number parsing ("C" locale), for the symbolic executions only.
// They work on the real std::streambuf of the stream; native replays use the real library.
#include <bits/c++config.h>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 0
#include <cerrno>
#include <climits>
#include <istream>
#include <limits>
#include <ostream>
#include <sstream>
#include <string>
#include "vp.h"
static inline bool spc(int c) { return c == ' ' || (c >= 9 && c <= 13); }
extern "C" {
static int vp_errno;
int* __errno_location() { return &vp_errno; }
int isspace(int c) { return spc(c); }
int isdigit(int c) { return c >= '0' && c <= '9'; }
int isalpha(int c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
int isalnum(int c) { return isdigit(c) || isalpha(c); }
int tolower(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
int toupper(int c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
static unsigned long magnitude(const char*& s, bool& any, bool& over, int base)
{
    unsigned long v = 0; any = over = false;
    if ((base == 0 || base == 16) && s[0] == '0' && (s[1] == 'x' || s[1] == 'X')) { s += 2; base = 16; }
    else if (base == 0) base = s[0] == '0' ? 8 : 10;
    for (;; ++s) {
        unsigned d;
        char c = *s;
        if (c >= '0' && c <= '9') d = c - '0';
        else if (base == 16 && c >= 'a' && c <= 'f') d = c - 'a' + 10;
        else if (base == 16 && c >= 'A' && c <= 'F') d = c - 'A' + 10;
        else break;
        if (d >= (unsigned)base) break;
        any = true;
        if (v > (ULONG_MAX - d) / (unsigned)base) over = true;
        v = v * base + d;
    }
    return v;
}
unsigned long vp_strtoul(const char* p, char** end, int base)
{
    const char* s = p;
    while (spc((unsigned char)*s)) ++s;
    bool neg = *s == '-';
    if (*s == '-' || *s == '+') ++s;
    bool any, over;
    unsigned long v = magnitude(s, any, over, base);
    if (end) *end = (char*)(any ? s : p);
    if (over) { vp_errno = ERANGE; return ULONG_MAX; }
    return neg ? -v : v;
}
long vp_strtol(const char* p, char** end, int base)
{
    const char* s = p;
    while (spc((unsigned char)*s)) ++s;
    bool neg = *s == '-';
    if (*s == '-' || *s == '+') ++s;
    bool any, over;
    unsigned long v = magnitude(s, any, over, base);
    if (end) *end = (char*)(any ? s : p);
    if (over || v > (unsigned long)LONG_MAX + neg) { vp_errno = ERANGE; return neg ? LONG_MIN : LONG_MAX; }
    return neg ? -v : v;
}
// decimal numbers of at most 19 significant digits whose value is exact in the arithmetic used here, inf and nan
double vp_strtod(const char* p, char** end)
{
    const char* s = p;
    while (spc((unsigned char)*s)) ++s;
    bool neg = *s == '-';
    if (*s == '-' || *s == '+') ++s;
    auto word = [](const char* t, const char* w) { for (; *w; ++t, ++w) if (tolower(*t) != *w) return false; return true; };
    if (word(s, "inf")) { if (end) *end = (char*)s + (word(s, "infinity") ? 8 : 3); return neg ? -__builtin_inf() : __builtin_inf(); }
    if (word(s, "nan")) { if (end) *end = (char*)s + 3; return __builtin_nan(""); }
    unsigned long m = 0; int ten = 0; bool any = false, dot = false;
    for (;; ++s) {
        if (*s == '.' && !dot) { dot = true; continue; }
        if (*s < '0' || *s > '9') break;
        any = true;
        if (m < 900000000000000000ul) { m = m * 10 + (*s - '0'); ten -= dot; } else ten += !dot;
    }
    if (!any) { if (end) *end = (char*)p; return 0; }
    if (*s == 'e' || *s == 'E') {
        const char* t = s + 1;
        bool minus = *t == '-';
        if (*t == '-' || *t == '+') ++t;
        if (*t >= '0' && *t <= '9') {
            int e = 0;
            for (; *t >= '0' && *t <= '9'; ++t) if (e < 10000) e = e * 10 + (*t - '0');
            ten += minus ? -e : e; s = t;
        }
    }
    if (end) *end = (char*)s;
    double v = (double)m, k = 1;
    if (m && ten > 300) { vp_errno = ERANGE; v = __builtin_inf(); ten = 0; }
    if (m && ten < -340) { vp_errno = ERANGE; v = 0; ten = 0; }
    for (int i = ten < 0 ? -ten : ten; m && i > 0; --i) k *= 10;
    v = ten < 0 ? v / k : v * k;
    return neg ? -v : v;
}
}
// every name glibc has for them
extern "C" double vp_n9(const char* p, char** e) __asm__("strtod");
double vp_n9(const char* p, char** e) { return vp_strtod(p, e); }
extern "C" unsigned long vp_n1(const char* p, char** e, int b) __asm__("strtoul");
extern "C" unsigned long vp_n2(const char* p, char** e, int b) __asm__("strtoull");
extern "C" unsigned long vp_n3(const char* p, char** e, int b) __asm__("__isoc23_strtoul");
extern "C" unsigned long vp_n4(const char* p, char** e, int b) __asm__("__isoc23_strtoull");
extern "C" long vp_n5(const char* p, char** e, int b) __asm__("strtol");
extern "C" long vp_n6(const char* p, char** e, int b) __asm__("strtoll");
extern "C" long vp_n7(const char* p, char** e, int b) __asm__("__isoc23_strtol");
extern "C" long vp_n8(const char* p, char** e, int b) __asm__("__isoc23_strtoll");
unsigned long vp_n1(const char* p, char** e, int b) { return vp_strtoul(p, e, b); }
unsigned long vp_n2(const char* p, char** e, int b) { return vp_strtoul(p, e, b); }
unsigned long vp_n3(const char* p, char** e, int b) { return vp_strtoul(p, e, b); }
unsigned long vp_n4(const char* p, char** e, int b) { return vp_strtoul(p, e, b); }
long vp_n5(const char* p, char** e, int b) { return vp_strtol(p, e, b); }
long vp_n6(const char* p, char** e, int b) { return vp_strtol(p, e, b); }
long vp_n7(const char* p, char** e, int b) { return vp_strtol(p, e, b); }
long vp_n8(const char* p, char** e, int b) { return vp_strtol(p, e, b); }
namespace std {
typedef char_traits<char> CT;
typedef basic_streambuf<char> SB;
locale::locale() noexcept { }
locale::locale(const locale&) noexcept { }
locale::~locale() noexcept { }
ios_base::ios_base() noexcept { _M_flags = ios_base::skipws | ios_base::dec; _M_width = 0; _M_precision = 6; _M_exception = goodbit; _M_streambuf_state = goodbit; }
ios_base::~ios_base() { }
template <> void basic_ios<char>::init(SB* sb)
{
    _M_tie = nullptr; _M_fill = ' '; _M_fill_init = true; _M_ctype = nullptr; _M_num_put = nullptr; _M_num_get = nullptr;
    _M_exception = goodbit; _M_streambuf = sb; _M_streambuf_state = sb ? goodbit : badbit;
}
template <> void basic_ios<char>::clear(iostate s)
{
    if (rdbuf()) _M_streambuf_state = s; else _M_streambuf_state = s | badbit;
    if (exceptions() & rdstate()) throw (int)rdstate();
}
template <> char basic_ios<char>::widen(char c) const { return c; }
template <> char basic_ios<char>::narrow(char c, char) const { return c; }
// Everything below reads the whole get area in one pass without branching on its bytes; the buffer has no underflow
// (the text of the harness is entirely in the get area).
static unsigned long plain(unsigned long v, unsigned long top)  // v <= top as a choice among constants
{
    if (vp_concrete(v)) return v;
    unsigned long lo = vp_lo(v), hi = vp_hi(v);
    if (hi > top) hi = top;
    if (lo > hi) lo = 0;
    unsigned long r = hi;
    for (unsigned long i = hi; i-- > lo;) r = vp_ite_u64(v == i, i, r);
    return r;
}
struct View {
    SB* b; const char* t; unsigned long n, pos;
    View(basic_istream<char>& in) : b(in.rdbuf()), t(b->_M_in_beg), n(b->_M_in_end - b->_M_in_beg), pos(plain(b->_M_in_cur - b->_M_in_beg, n)) { }
    void set(unsigned long p) { b->_M_in_cur = b->_M_in_beg + plain(p, n); }
    // first position from `from` on whose character is as wanted; n if there is none
    template <class P> unsigned long find(unsigned long from, P p) const
    {
        unsigned long lo = vp_lo(from), end = n;
        for (unsigned long i = lo; i < n; ++i) {
            bool q = vp_and(i >= from, p(t[i]));
            if (vp_concrete(q) && q) { end = i; break; }
        }
        unsigned long r = end;
        for (unsigned long i = end; i-- > lo;) r = vp_ite_u64(vp_and(i >= from, p(t[i])), i, r);
        return r;
    }
    void copy(basic_string<char>& s, unsigned long start, unsigned long len) const
    {
        len = plain(len, n);
        unsigned long top = vp_hi(len), lo = vp_lo(start), hi = vp_hi(start);
        if (top > n) top = n;
        s.reserve(top);
        char* d = s._M_data();
        for (unsigned long k = 0; k <= top; ++k) {
            unsigned long c = 0;
            for (unsigned long i = lo; i <= hi && i + k < n; ++i) c = vp_ite_u64(start == i, (unsigned char)t[i + k], c);
            d[k] = (char)vp_ite_u64(k < len, c, 0);
        }
        s._M_length(len);
    }
    unsigned long at(unsigned long p) const
    {
        unsigned long c = 0;
        for (unsigned long i = vp_lo(p); i <= vp_hi(p) && i < n; ++i) c = vp_ite_u64(p == i, (unsigned char)t[i], c);
        return c;
    }
};
static bool blank(char c) { return vp_or(c == ' ', vp_and((unsigned char)c >= 9, (unsigned char)c <= 13)); }
static bool inked(char c) { return !blank(c); }
template <> basic_istream<char>::sentry::sentry(basic_istream<char>& in, bool raw) : _M_ok(false)
{
    if (!in.good()) { in._M_streambuf_state = in._M_streambuf_state | ios_base::failbit; return; }
    if (!raw && (in.flags() & ios_base::skipws)) {
        View v(in);
        unsigned long p = v.find(v.pos, inked);
        v.set(p);
        in._M_streambuf_state = (ios_base::iostate)vp_ite_u64(p == v.n, ios_base::eofbit | ios_base::failbit, ios_base::goodbit);
        _M_ok = p != v.n;
        return;
    }
    _M_ok = true;
}
template <> basic_istream<char>& operator>>(basic_istream<char>& in, basic_string<char>& s)
{
    basic_istream<char>::sentry ok(in, false);
    if (ok) {
        View v(in);
        unsigned long e = v.find(v.pos + (in.flags() & ios_base::skipws ? 1 : 0), blank);  // at least one character after skipping
        if (in.width() > 0) { unsigned long w = in.width(); bool cut = e - v.pos >= w; e = vp_ite_u64(cut, v.pos + w, e); v.copy(s, v.pos, e - v.pos); v.set(e); if (!cut && e == v.n) in.setstate(ios_base::eofbit); in.width(0); return in; }
        v.copy(s, v.pos, e - v.pos);
        v.set(e);
        in._M_streambuf_state = (ios_base::iostate)vp_ite_u64(e == v.n, ios_base::eofbit, ios_base::goodbit);
    }
    return in;
}
template <> basic_istream<char>& getline(basic_istream<char>& in, basic_string<char>& s, char delim)
{
    basic_istream<char>::sentry ok(in, true);
    if (ok) {
        View v(in);
        unsigned long e = v.find(v.pos, [delim](char c) { return c == delim; });
        v.copy(s, v.pos, e - v.pos);
        bool end = e == v.n;
        v.set(vp_ite_u64(end, e, e + 1));
        in._M_streambuf_state = (ios_base::iostate)vp_ite_u64(end, vp_ite_u64(e == v.pos, ios_base::eofbit | ios_base::failbit, ios_base::eofbit), ios_base::goodbit);
    }
    return in;
}
template <> basic_istream<char>& ws(basic_istream<char>& in)
{
    basic_istream<char>::sentry ok(in, true);
    if (ok) {
        View v(in);
        unsigned long p = v.find(v.pos, inked);
        v.set(p);
        in._M_streambuf_state = (ios_base::iostate)vp_ite_u64(p == v.n, ios_base::eofbit, ios_base::goodbit);
    }
    return in;
}
template <> basic_istream<char>& basic_istream<char>::ignore(streamsize n, int delim)
{
    _M_gcount = 0;
    sentry ok(*this, true);
    if (ok && n > 0) {
        View v(*this);
        unsigned long e = v.find(v.pos, [delim](char c) { return (int)(unsigned char)c == delim; });
        unsigned long after = vp_ite_u64(e == v.n, e, e + 1);   // behind the delimiter
        bool cut = false;
        if (n < (streamsize)v.n) {
            cut = after - v.pos >= (unsigned long)n;
            after = vp_ite_u64(cut, v.pos + n, after);
        }
        v.set(after);
        _M_gcount = after - v.pos;
        _M_streambuf_state = (iostate)vp_ite_u64(vp_and(!cut, e == v.n), ios_base::eofbit, ios_base::goodbit);
    }
    return *this;
}
template <> basic_istream<char>& basic_istream<char>::ignore(streamsize n) { return ignore(n, EOF); }
template <> basic_istream<char>& basic_istream<char>::ignore() { _M_gcount = 0; return ignore(1, EOF); }
template <> int basic_istream<char>::get()
{
    _M_gcount = 0;
    sentry ok(*this, true);
    if (!ok) return EOF;
    View v(*this);
    bool end = v.pos == v.n;
    unsigned long c = v.at(v.pos);
    v.set(vp_ite_u64(end, v.pos, v.pos + 1));
    _M_gcount = vp_ite_u64(end, 0, 1);
    _M_streambuf_state = (iostate)vp_ite_u64(end, ios_base::eofbit | ios_base::failbit, ios_base::goodbit);
    return (int)vp_ite_u64(end, (unsigned)EOF, c);
}
template <> basic_istream<char>& basic_istream<char>::get(char& out)
{
    int c = get();
    out = (char)vp_ite_u64(c == EOF, (unsigned char)out, (unsigned char)c);
    return *this;
}
template <> int basic_istream<char>::peek()
{
    _M_gcount = 0;
    sentry ok(*this, true);
    if (!ok) return EOF;
    View v(*this);
    bool end = v.pos == v.n;
    unsigned long c = v.at(v.pos);
    _M_streambuf_state = (iostate)vp_ite_u64(end, ios_base::eofbit, ios_base::goodbit);
    return (int)vp_ite_u64(end, (unsigned)EOF, c);
}
// numbers
// decimal numbers as num_get reads them: the value (of the greatest magnitude the type has, if it does not fit) and the state
static ios_base::iostate number(SB* b, bool is_signed, unsigned long top, unsigned long& out)
{
    ios_base::iostate err = ios_base::goodbit;
    int c = b->sgetc();
    bool neg = c == '-', any = false, over = false;
    unsigned long v = 0;
    if (c == '-' || c == '+') c = b->snextc();
    unsigned long limit = top + (is_signed && neg);
    while (c >= '0' && c <= '9') {
        unsigned d = c - '0';
        if (v > (limit - d) / 10) over = true;
        v = v * 10 + d; any = true;
        c = b->snextc();
    }
    if (c == EOF) err |= ios_base::eofbit;
    if (!any) { out = 0; err |= ios_base::failbit; }
    else if (over) { out = is_signed && neg ? -limit : top; err |= ios_base::failbit; }
    else out = neg ? -v : v;
    return err;
}
#define VP_EXTRACT(T, TOP) \
template <> template <> basic_istream<char>& basic_istream<char>::_M_extract<T>(T& out) \
{ \
    sentry ok(*this, false); \
    if (!ok) return *this; \
    unsigned long v; \
    ios_base::iostate err = number(rdbuf(), (T)-1 < (T)0, TOP, v); \
    out = (T)v; \
    if (err) setstate(err); \
    return *this; \
}
VP_EXTRACT(unsigned long, ULONG_MAX)
VP_EXTRACT(unsigned long long, ULONG_MAX)
VP_EXTRACT(unsigned int, UINT_MAX)
VP_EXTRACT(unsigned short, USHRT_MAX)
VP_EXTRACT(long, LONG_MAX)
VP_EXTRACT(long long, LONG_MAX)
#define VP_EXTRACT_S(T, TOP) \
template <> basic_istream<char>& basic_istream<char>::operator>>(T& out) \
{ \
    sentry ok(*this, false); \
    if (!ok) return *this; \
    unsigned long v; \
    ios_base::iostate err = number(rdbuf(), true, TOP, v); \
    out = (T)v; \
    if (err) setstate(err); \
    return *this; \
}
VP_EXTRACT_S(int, INT_MAX)
VP_EXTRACT_S(short, SHRT_MAX)
template <> basic_istream<char>& operator>>(basic_istream<char>& in, char& out)
{
    basic_istream<char>::sentry ok(in, false);
    if (ok) {
        int c = in.rdbuf()->sbumpc();
        if (c == EOF) in.setstate(ios_base::eofbit | ios_base::failbit); else out = (char)c;
    }
    return in;
}
template <> streamsize __copy_streambufs_eof(SB* from, SB* to, bool& end)
{
    streamsize n = 0;
    end = true;
    for (int c = from->sgetc(); c != EOF; c = from->snextc(), ++n)
        if (to->sputc((char)c) == EOF) { end = false; break; }
    return n;
}
template <> basic_ostream<char>::sentry::sentry(basic_ostream<char>& out) : _M_ok(out.good()), _M_os(out) { }
static bool digits(SB* b, unsigned long v)
{
    char text[20]; int n = 0;
    do { text[n++] = '0' + v % 10; v /= 10; } while (v);
    bool bad = false;
    for (int i = n; i-- > 0;) bad = b->sputc(text[i]) == EOF || bad;
    return bad;
}
template <> template <> basic_ostream<char>& basic_ostream<char>::_M_insert<unsigned long>(unsigned long v)
{
    sentry ok(*this);
    if (ok && digits(rdbuf(), v)) setstate(badbit);
    return *this;
}
template <> template <> basic_ostream<char>& basic_ostream<char>::_M_insert<unsigned long long>(unsigned long long v) { return _M_insert<unsigned long>(v); }
template <> template <> basic_ostream<char>& basic_ostream<char>::_M_insert<long>(long v)
{
    sentry ok(*this);
    if (!ok) return *this;
    bool bad = v < 0 && rdbuf()->sputc('-') == EOF;
    if (digits(rdbuf(), v < 0 ? -(unsigned long)v : v) || bad) setstate(badbit);
    return *this;
}
template <> template <> basic_ostream<char>& basic_ostream<char>::_M_insert<long long>(long long v) { return _M_insert<long>(v); }
template <> template <> basic_ostream<char>& basic_ostream<char>::_M_insert<bool>(bool v) { return _M_insert<unsigned long>(v); }
}
// virtual tables and the members not replaced above
template class std::basic_ios<char>;
template class std::basic_istream<char>;
template class std::basic_ostream<char>;
template class std::basic_streambuf<char>;
template class std::basic_iostream<char>;
template class std::basic_stringbuf<char>;
template class std::basic_istringstream<char>;
template class std::basic_ostringstream<char>;
template class std::basic_stringstream<char>;
