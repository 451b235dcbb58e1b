// Stand-ins for the compiled parts of the standard exception classes, for the symbolic executions only:
// they keep the message they are given, so that code printing what() can be executed.
#include <new>
#include <stdexcept>
#include <string>
namespace std {
exception::~exception() noexcept { }
const char* exception::what() const noexcept { return "std::exception"; }
bad_alloc::~bad_alloc() noexcept { }
const char* bad_alloc::what() const noexcept { return "std::bad_alloc"; }
bad_array_new_length::~bad_array_new_length() noexcept { }
const char* bad_array_new_length::what() const noexcept { return "std::bad_array_new_length"; }
static const char* keep(const char* s, size_t n) // room of one size, so that exceptions of different origin can be merged; longer messages are cut
{ char* r = (char*)__builtin_malloc(160); for (size_t i = 0; i < 160; ++i) r[i] = i < n && i < 159 ? s[i] : 0; return r; }
__cow_string::__cow_string(const string& s) { _M_p = keep(s.data(), s.size()); }
__cow_string::__cow_string(const char* s, size_t n) { _M_p = keep(s, n); }
__cow_string::__cow_string(const __cow_string& o) noexcept { _M_p = o._M_p; }
__cow_string& __cow_string::operator=(const __cow_string& o) noexcept { _M_p = o._M_p; return *this; }
__cow_string::__cow_string(__cow_string&& o) noexcept { _M_p = o._M_p; }
__cow_string& __cow_string::operator=(__cow_string&& o) noexcept { _M_p = o._M_p; return *this; }
__cow_string::~__cow_string() { }
#define ROOT(C) \
    C::C(const string& s) : _M_msg(s) { } \
    C::C(const char* s) : _M_msg(s, char_traits<char>::length(s)) { } \
    C::C(C&& o) noexcept : exception(o), _M_msg(o._M_msg) { } \
    C::C(const C& o) noexcept : exception(o), _M_msg(o._M_msg) { } \
    C& C::operator=(C&& o) noexcept { _M_msg = o._M_msg; return *this; } \
    C& C::operator=(const C& o) noexcept { _M_msg = o._M_msg; return *this; } \
    C::~C() noexcept { } \
    const char* C::what() const noexcept { return _M_msg._M_p; }
ROOT(logic_error)
ROOT(runtime_error)
#define LEAF(C, B) C::C(const string& s) : B(s) { } C::C(const char* s) : B(s) { } C::~C() noexcept { }
LEAF(domain_error, logic_error) LEAF(invalid_argument, logic_error) LEAF(length_error, logic_error) LEAF(out_of_range, logic_error)
LEAF(range_error, runtime_error) LEAF(overflow_error, runtime_error) LEAF(underflow_error, runtime_error)
void __throw_logic_error(const char* s) { throw logic_error(s); }
void __throw_domain_error(const char* s) { throw domain_error(s); }
void __throw_invalid_argument(const char* s) { throw invalid_argument(s); }
void __throw_length_error(const char* s) { throw length_error(s); }
void __throw_out_of_range(const char* s) { throw out_of_range(s); }
void __throw_out_of_range_fmt(const char* s, ...) { throw out_of_range(s); }
void __throw_runtime_error(const char* s) { throw runtime_error(s); }
void __throw_bad_alloc() { throw bad_alloc(); }
void __throw_bad_array_new_length() { throw bad_array_new_length(); }
}
