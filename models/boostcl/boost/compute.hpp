// Stand-in for Boost.Compute: buffers are host memory, a kernel launch runs every work-item of the real
// device program (see harness/cl_builtins.cpp), one after another in an order the harness chooses.
#pragma once
#include <cstddef>
#include <initializer_list>
#include <string>
#include <type_traits>
#include <vector>
typedef unsigned long cl_ulong; typedef long cl_long; typedef float cl_float; typedef double cl_double; typedef int cl_int; typedef unsigned cl_uint; typedef cl_uint cl_bool;
struct VpArg { void* p; unsigned long i; double f; int kind; };   // kind: 1 buffer, 2 float, 4/8 integer of that size, 16 double
extern "C" void vp_launch(const char* kernel, VpArg* args, unsigned long count);  // generated from the device program
extern "C" unsigned long vp_arity(const char* kernel);
extern unsigned long vp_global_id, vp_global_size;
extern unsigned long vp_order(unsigned long k, unsigned long n);                  // of the harness
#ifdef VP_PROGRAM
void vp_program(const std::string& source, const std::string& options);
std::string vp_file_text(const std::string& name);
#endif
namespace boost { namespace compute {
struct buffer { void* p = nullptr; std::size_t n = 0; std::size_t size() const { return n; } };
struct device {}; struct event { void wait() {} };
struct context { context() {} context(const device&) {} };
struct kernel {
    struct State { std::string name; VpArg a[32]; };
    State* s = nullptr;
    std::size_t arity() const { return vp_arity(s->name.c_str()); }
    const std::string& name() const { return s->name; }
    void set_arg(std::size_t k, const buffer& b) { s->a[k] = VpArg{b.p, 0, 0, 1}; }
    template <class T, class = std::enable_if_t<std::is_arithmetic<T>::value>> void set_arg(std::size_t k, const T& v)
    {
        if constexpr (std::is_floating_point<T>::value) s->a[k] = VpArg{nullptr, 0, v, sizeof(T) == 4 ? 2 : 16};
        else s->a[k] = VpArg{nullptr, (unsigned long)v, 0, (int)sizeof(T)};
    }
    template <class... T> void set_args(const T&... v) { std::size_t k = 0; (set_arg(k++, v), ...); }
};
struct program {
#ifdef VP_PROGRAM
    // the harness learns what is handed to the compiler of the device
    std::string text;
    static program build_with_source(const std::string& s, const context&, const std::string& o = "") { vp_program(s, o); return program(); }
    static program build_with_source_file(const std::string& f, const context& c, const std::string& o = "") { program p = create_with_source_file(f, c); p.build(o); return p; }
    static program create_with_source(const std::string& s, const context&) { program p; p.text = s; return p; }
    static program create_with_source_file(const std::string& f, const context&) { program p; p.text = vp_file_text(f); return p; }
    static program create_with_source_file(const std::vector<std::string>& fs, const context&) { program p; for (const auto& f : fs) p.text += vp_file_text(f); return p; }
    void build(const std::string& o = "") { vp_program(text, o); }
#else
    static program build_with_source(const std::string&, const context&, const std::string& = "") { return program(); }
    static program create_with_source(const std::string&, const context&) { return program(); }
    void build(const std::string& = "") {}
#endif
    kernel create_kernel(const std::string& n) const { kernel k; k.s = new kernel::State; k.s->name = n; return k; }
};
struct command_queue {
    command_queue() {}
    command_queue(const context&, const device&) {}
    context get_context() const { return context(); }
    device get_device() const { return device(); }
    void finish() {}
    void flush() {}
    void enqueue_barrier() {}
    event enqueue_1d_range_kernel(const kernel& k, std::size_t offset, std::size_t n, std::size_t)
    {
        vp_global_size = n;
        for (std::size_t i = 0; i < n; ++i) { vp_global_id = offset + vp_order(i, n); vp_launch(k.s->name.c_str(), k.s->a, 32); }
        return event();
    }
    event enqueue_task(const kernel& k) { return enqueue_1d_range_kernel(k, 0, 1, 1); }
};
struct system { static command_queue default_queue() { return command_queue(); } static device default_device() { return device(); } static context default_context() { return context(); } };
// storage of a buffer never moves while its size stays the same, like device memory
template <class T> struct vector {
    T* d = nullptr; std::size_t n = 0;
    typedef T* iterator; typedef const T* const_iterator; typedef T value_type;
    vector() {}
    explicit vector(const context&) {}
    explicit vector(std::size_t n, const context& = context()) { resize(n); }
    vector(std::size_t n, const T& v, const command_queue& = command_queue()) { resize(n); for (std::size_t i = 0; i < n; ++i) d[i] = v; }
    template <class U> explicit vector(const std::vector<U>& v, const command_queue& = command_queue()) { assign(v.begin(), v.end()); }
    vector(std::initializer_list<T> v, const command_queue& = command_queue()) { assign(v.begin(), v.end()); }
    template <class It, class = decltype(*std::declval<It>())> vector(It b, It e, const command_queue& = command_queue()) { assign(b, e); }
    vector(const vector& o) { assign(o.d, o.d + o.n); }
    vector& operator=(const vector& o) { assign(o.d, o.d + o.n); return *this; }
    ~vector() { delete[] d; }
    void resize(std::size_t m, const command_queue& = command_queue()) { if (m != n || !d) { T* e = new T[m]; for (std::size_t i = 0; i < m && i < n; ++i) e[i] = d[i]; delete[] d; d = e; n = m; } }
    template <class It> void assign(It b, It e, const command_queue& = command_queue())
    {
        std::size_t m = 0; for (It i = b; i != e; ++i) ++m;
        if (m != n || !d) { T* x = new T[m]; delete[] d; d = x; n = m; }
        for (std::size_t k = 0; b != e; ++b, ++k) d[k] = (T)*b;
    }
    std::size_t size() const { return n; }
    bool empty() const { return !n; }
    buffer get_buffer() const { buffer b; b.p = d; b.n = n * sizeof(T); return b; }
    T* begin() { return d; } T* end() { return d + n; }
    const T* begin() const { return d; } const T* end() const { return d + n; }
    T& operator[](std::size_t i) { return d[i]; }
    const T& operator[](std::size_t i) const { return d[i]; }
    T& front() { return d[0]; } T& back() { return d[n - 1]; }
};
template <class A, class B> B copy(A b, A e, B o, const command_queue& = command_queue()) { for (; b != e; ++b, ++o) *o = *b; return o; }
template <class A, class B> B copy_n(A b, std::size_t n, B o, const command_queue& = command_queue()) { for (; n; --n, ++b, ++o) *o = *b; return o; }
template <class A, class V> void fill(A b, A e, const V& v, const command_queue& = command_queue()) { for (; b != e; ++b) *b = v; }
template <class A, class V> void fill_n(A b, std::size_t n, const V& v, const command_queue& = command_queue()) { for (; n; --n, ++b) *b = v; }
template <class T> T read_single_value(const buffer& b, const command_queue&) { return *(T*)b.p; }
template <class T> T read_single_value(const buffer& b, std::size_t i, const command_queue&) { return ((T*)b.p)[i]; }
template <class T> void write_single_value(const T& v, const buffer& b, std::size_t i, const command_queue&) { ((T*)b.p)[i] = v; }
} }
