// Branch-free equivalents of std::sort, std::unique and std::merge on vectors of doubles, for the symbolic
// executions only (native replays use the real ones).  A range may have a symbolic length.
#include "vp.h"
#include <algorithm>
#include <iterator>
#include <vector>
typedef std::vector<double> V;
typedef V::iterator It;
typedef unsigned long ul;
namespace {
// a number below a bound as one-hot booleans: simple terms whatever it was computed from
struct Count {
    bool* is; ul top;
    Count(ul top) : is(new bool[top + 1]), top(top) { for (ul j = 0; j <= top; ++j) is[j] = j == 0; }
    ~Count() { delete[] is; }
    void add(bool one) { for (ul j = top; j > 0; --j) is[j] = vp_or(vp_and(is[j], !one), vp_and(is[j - 1], one)); is[0] = vp_and(is[0], !one); }
    ul value() const { ul v = top; for (ul j = top; j-- > 0;) v = vp_ite_u64(is[j], j, v); return v; }
    double select(const double* v, ul n, double other) const { double r = other; for (ul j = n; j-- > 0;) r = vp_ite_d(is[j], v[j], r); return r; }
};
struct List { double* v; bool* on; ul n, count; };
// elements of a range as a list of fixed length of which a prefix is present
List load(double* p, ul count)
{
    ul top = vp_upper(count);
    List l{new double[top + 1], new bool[top + 1], top, count};
    for (ul i = 0; i < top; ++i) { l.v[i] = vp_peek_double(p, i, count); l.on[i] = i < count; }
    return l;
}
void store(double* p, ul count, ul top, const double* v) { for (ul i = 0; i < top; ++i) vp_poke_double(p, i, count, v[i]); }
void drop(List& l) { delete[] l.v; delete[] l.on; }
}
namespace std {
template <> void sort<It>(It first, It last)
{
    List l = load(first.base(), last - first);
    for (ul i = 1; i < l.n; ++i) for (ul j = i; j > 0; --j) {
        double a = l.v[j - 1], b = l.v[j];
        bool s = vp_and(l.on[j], b < a);
        l.v[j - 1] = vp_ite_d(s, b, a); l.v[j] = vp_ite_d(s, a, b);
    }
    store(first.base(), l.count, l.n, l.v);
    drop(l);
}
template <> It unique<It>(It first, It last)
{
    List l = load(first.base(), last - first);
    double* r = new double[l.n + 1];
    Count c(l.n);
    for (ul i = 0; i < l.n; ++i) {
        bool keep = l.on[i];
        double prev = 0;  // the last element kept
        for (ul j = i; j > 0; --j) prev = vp_ite_d(c.is[j], r[j - 1], prev);
        if (i) keep = vp_and(keep, !(prev == l.v[i]));
        for (ul j = 0; j <= i; ++j) { bool here = vp_and(keep, c.is[j]); r[j] = j == i ? l.v[i] : vp_ite_d(here, l.v[i], r[j]); }
        c.add(keep);
    }
    store(first.base(), l.count, l.n, r); // what lies beyond the result is unspecified
    It out = first + c.value();
    drop(l); delete[] r;
    return out;
}
template <> back_insert_iterator<V> merge<It, It, back_insert_iterator<V>>(It f1, It l1, It f2, It l2, back_insert_iterator<V> out)
{
    List a = load(f1.base(), l1 - f1), b = load(f2.base(), l2 - f2);
    ul n = a.n + b.n;
    V* v = out.container;
    v->reserve(vp_upper(v->size()) + n);
    double* o = v->_M_impl._M_finish;
    Count i(a.n), j(b.n), total(n);
    for (ul k = 0; k < n; ++k) {
        double x = i.select(a.v, a.n, 0), y = j.select(b.v, b.n, 0);
        bool more1 = false, more2 = false;
        for (ul q = 0; q < a.n; ++q) more1 = vp_or(more1, vp_and(i.is[q], a.on[q]));
        for (ul q = 0; q < b.n; ++q) more2 = vp_or(more2, vp_and(j.is[q], b.on[q]));
        bool second = vp_and(more2, vp_or(!more1, y < x));
        bool first = vp_and(more1, !second);
        vp_poke_double(o, vp_ite_u64(vp_or(first, second), k, k), vp_ite_u64(vp_or(first, second), k + 1, k), vp_ite_d(second, y, x));
        i.add(first); j.add(second); total.add(vp_or(first, second));
    }
    v->_M_impl._M_finish = o + total.value();
    drop(a); drop(b);
    return out;
}

template <> void stable_sort<It>(It first, It last) { std::sort(first, last); }
// growing a vector whose length is symbolic: room for the greatest possible length, no branch on the capacity
static void grow(V* v, ul n)
{
    ul need = vp_upper(v->size()) + n, cap = v->_M_impl._M_end_of_storage - v->_M_impl._M_start;
    if (vp_concrete(cap) && cap >= need) return;
    ul size = v->size(), top = vp_upper(size), room = need * 2;
    double* p = v->_M_get_Tp_allocator().allocate(room);
    if (vp_concrete(size)) __builtin_memcpy(p, v->_M_impl._M_start, size * sizeof(double));
    else for (ul i = 0; i < top; ++i) vp_poke_double(p, i, size, vp_peek_double(v->_M_impl._M_start, i, size));
    v->_M_deallocate(v->_M_impl._M_start, cap);
    v->_M_impl._M_start = p; v->_M_impl._M_finish = p + size; v->_M_impl._M_end_of_storage = p + room;
}
static void insert_range(V* v, ul at, const double* first, ul count)
{
    ul size = v->size();
    List a = load(v->_M_impl._M_start, size), b = load(const_cast<double*>(first), count);
    grow(v, b.n);
    double* p = v->_M_impl._M_start;
    bool end = vp_concrete(size - at) && size == at;
    for (ul i = 0; i < a.n + b.n; ++i) {
        double x = 0;
        if (i < a.n) x = a.v[i];
        for (ul j = 0; j < b.n && j <= i; ++j) if (i - j <= a.n) x = vp_ite_d(vp_and(at == i - j, b.on[j]), b.v[j], x);
        if (!end) for (ul j = 0; j <= i && j < a.n; ++j) if (i - j <= b.n) x = vp_ite_d(vp_and(j >= at, count == i - j), a.v[j], x);
        vp_poke_double(p, i, size + count, x);
    }
    v->_M_impl._M_finish = p + (size + count);
    drop(a); drop(b);
}
template <> template <> void V::_M_range_insert<It>(It pos, It f, It l, forward_iterator_tag) { insert_range(this, pos - begin(), f.base(), l - f); }
template <> template <> void V::_M_range_insert<V::const_iterator>(It pos, V::const_iterator f, V::const_iterator l, forward_iterator_tag) { insert_range(this, pos - begin(), f.base(), l - f); }
template <> template <> void V::_M_range_insert<const double*>(It pos, const double* f, const double* l, forward_iterator_tag) { insert_range(this, pos - begin(), f, l - f); }
template <> template <> void V::_M_range_insert<double*>(It pos, double* f, double* l, forward_iterator_tag) { insert_range(this, pos - begin(), f, l - f); }
static void append(V* v, double x)
{
    ul size = v->size();
    grow(v, 1);
    v->_M_impl._M_finish = v->_M_impl._M_start + (size + 1);
    v->_M_impl._M_start[size] = x;
}
template <> void V::push_back(const double& x) { append(this, x); }
template <> template <> double& V::emplace_back<double>(double&& x) { append(this, x); return *(_M_impl._M_finish - 1); }
template <> template <> double& V::emplace_back<const double&>(const double& x) { append(this, x); return *(_M_impl._M_finish - 1); }
template <> template <> double& V::emplace_back<double&>(double& x) { append(this, x); return *(_M_impl._M_finish - 1); }
}
