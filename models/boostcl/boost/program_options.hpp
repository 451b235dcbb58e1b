// Stand-in for Boost.Program_options: long and short names, "--name value", "--name=value", "-n value", "-nvalue", flags, the documented errors.
#pragma once
#include <cstdlib>
#include <ostream>
#include <stdexcept>
#include <string>
#include <utility>
#include <vector>
namespace boost { namespace program_options {
struct error : std::logic_error { using std::logic_error::logic_error; };
struct error_with_option_name : error { using error::error; };
struct unknown_option : error_with_option_name { using error_with_option_name::error_with_option_name; };
struct multiple_occurrences : error_with_option_name { using error_with_option_name::error_with_option_name; };
struct invalid_syntax : error_with_option_name { using error_with_option_name::error_with_option_name; };
struct invalid_command_line_syntax : invalid_syntax { using invalid_syntax::invalid_syntax; };
struct required_option : error_with_option_name { using error_with_option_name::error_with_option_name; };
struct validation_error : error_with_option_name { using error_with_option_name::error_with_option_name; };
struct invalid_option_value : validation_error { using validation_error::validation_error; };
struct too_many_positional_options_error : error { using error::error; };
template <class T> struct vp_convert;
template <> struct vp_convert<std::string> { static bool get(const std::string& s, std::string& v) { v = s; return true; } };
template <> struct vp_convert<unsigned long> { static bool get(const std::string& s, unsigned long& v) { char* e; v = std::strtoul(s.c_str(), &e, 10); return !s.empty() && !*e; } };
template <> struct vp_convert<double> { static bool get(const std::string& s, double& v) { char* e; v = std::strtod(s.c_str(), &e); return !s.empty() && !*e; } };
struct value_semantic { bool needed = false, has_default = false; std::string initial; };
template <class T> struct typed_value : value_semantic {
    typed_value* required() { needed = true; return this; }
    typed_value* default_value(const T&, const std::string& text) { has_default = true; initial = text; return this; }
    typed_value* default_value(const std::string& text) { has_default = true; initial = text; return this; }
    typed_value* value_name(const std::string&) { return this; }
};
template <class T> typed_value<T>* value() { return new typed_value<T>; }
struct Option { std::string name, letter; const value_semantic* value; };
struct options_description {
    std::vector<Option> o;
    explicit options_description(const std::string& = "") {}
    struct easy_init {
        options_description* d;
        easy_init& operator()(const char* n, const char*) { return add(n, nullptr); }
        easy_init& operator()(const char* n, const value_semantic* v) { return add(n, v); }
        easy_init& operator()(const char* n, const value_semantic* v, const char*) { return add(n, v); }
        easy_init& add(const std::string& n, const value_semantic* v)
        {
            std::size_t c = 0; while (c < n.size() && n[c] != ',') ++c;
            Option x{n.substr(0, c), c < n.size() ? n.substr(c + 1) : std::string(), v};
            d->o.push_back(x); return *this;
        }
    };
    easy_init add_options() { return easy_init{this}; }
    const Option& find(const std::string& n, bool letter) const
    {
        for (const Option& x : o) if ((letter ? x.letter : x.name) == n) return x;
        throw unknown_option("unrecognised option");
    }
};
inline std::ostream& operator<<(std::ostream& out, const options_description&) { return out << "help"; }
struct parsed_options { std::vector<std::pair<std::string, std::string>> v; const options_description* d; };
inline parsed_options parse_command_line(int argc, const char* const* argv, const options_description& d)
{
    parsed_options r; r.d = &d;
    for (int i = 1; i < argc; ++i) {
        std::string t = argv[i], value; bool given = false;
        const Option* x;
        if (t.size() > 2 && t[0] == '-' && t[1] == '-') {
            std::size_t e = 2; while (e < t.size() && t[e] != '=') ++e;
            x = &d.find(t.substr(2, e - 2), false);
            if (e < t.size()) { value = t.substr(e + 1); given = true; if (value.empty()) throw invalid_command_line_syntax("empty value"); }
        } else if (t.size() > 1 && t[0] == '-') {
            x = &d.find(t.substr(1, 1), true);
            if (t.size() > 2) { value = t.substr(2); given = true; }
        } else throw too_many_positional_options_error("too many positional options");
        if (x->value && !given) { if (i + 1 >= argc || argv[i + 1][0] == '-') throw invalid_command_line_syntax("missing value"); value = argv[++i]; }
        if (!x->value && given) throw invalid_command_line_syntax("unexpected value");
        r.v.push_back(std::make_pair(x->name, value));
    }
    return r;
}
struct variable_value {
    std::string name, text; bool is_default = false;
    template <class T> T as() const { T v; if (!vp_convert<T>::get(text, v)) throw invalid_option_value("invalid value"); return v; }
    bool empty() const { return false; }
    bool defaulted() const { return is_default; }
};
struct variables_map {
    std::vector<variable_value> v; const options_description* d = nullptr;
    std::size_t count(const std::string& n) const { for (auto& x : v) if (x.name == n) return 1; return 0; }
    const variable_value& operator[](const std::string& n) const { for (auto& x : v) if (x.name == n) return x; throw std::out_of_range("no such option"); }
    const variable_value& at(const std::string& n) const { return (*this)[n]; }
    bool contains(const std::string& n) const { return count(n); }
    bool empty() const { return v.empty(); }
    std::size_t size() const { return v.size(); }
};
inline void store(const parsed_options& p, variables_map& m)
{
    m.d = p.d;
    for (auto& x : p.v) { if (m.count(x.first)) throw multiple_occurrences("more than once"); m.v.push_back(variable_value{x.first, x.second}); }
    for (auto& o : p.d->o) if (o.value && o.value->has_default && !m.count(o.name)) { variable_value q{o.name, o.value->initial}; q.is_default = true; m.v.push_back(q); }
}
inline void notify(variables_map& m) { if (m.d) for (auto& o : m.d->o) if (o.value && o.value->needed && !m.count(o.name)) throw required_option("missing option"); }
} }
