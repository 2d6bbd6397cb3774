// Further element types (-DELX builds): a container nested in a container, pointers (null included),
// bytes, floating point, a self-referential object, strings.
#pragma once
#include "config.hpp"
namespace H {
// Nest: holds its value as the contents of another DStruct container
struct Nest {
    D::Vector<int> v;
    Nest() {}
    Nest(long long x) { for (int i = 0; i < (int)(x & 3) + 1; i++) v.push_back((int)x + i); }
    long long get() const {
        if (v.empty()) return 0;
        long long x = v[0]; long long i = 0;
        if ((long long)v.size() != (x & 3) + 1) return -888888;
        for (auto &e : v) { if (e != x + i) return -888889; i++; }
        return x;
    }
    bool operator==(const Nest &o) const { return get() == o.get(); }
    bool operator!=(const Nest &o) const { return get() != o.get(); }
    bool operator<(const Nest &o) const { return get() < o.get(); }
    bool operator>(const Nest &o) const { return get() > o.get(); }
};
// Selfp: knows its own address; moving its bytes elsewhere without its copy operations is caught
struct Selfp {
    const Selfp *me; int v;
    Selfp(int x = 0) : me(this), v(x) {}
    Selfp(const Selfp &o) : me(this), v(o.get()) {}
    Selfp &operator=(const Selfp &o) { chk(); v = o.get(); return *this; }
    ~Selfp() { chk(); me = nullptr; }
    void chk() const { if (me != this) abort(); }
    int get() const { chk(); return v; }
    bool operator==(const Selfp &o) const { return get() == o.get(); }
    bool operator!=(const Selfp &o) const { return get() != o.get(); }
    bool operator<(const Selfp &o) const { return get() < o.get(); }
    bool operator>(const Selfp &o) const { return get() > o.get(); }
};
inline long long val(const Nest &t) { return t.get(); }
inline long long val(const Selfp &t) { return t.get(); }
template <> struct Mk<Nest> { static Nest f(long long x) { return Nest(x); } };
template <> struct Mk<Ptr> { static Ptr f(long long x) { return x ? g_cells + x : nullptr; } };
template <> struct Mk<double> { static double f(long long x) { return (double)x + 0.25; } };
#ifndef SM
// strings as elements and keys: decimal text, "" for zero
typedef D::String Str;
inline long long val(const Str &s) { long long x = 0; bool neg = false; for (int i = 0; i < (int)s.size(); i++) { char c = s[i]; if (c == '-') neg = true; else if (c < '0' || c > '9') return -777772; else x = x * 10 + (c - '0'); } return neg ? -x : x; }
template <> struct Mk<Str> { static Str f(long long x) { return x ? Str(std::to_string(x).c_str()) : Str(); } };
// String has no order of its own; its users bring one
struct StrLess { bool operator()(const Str &a, const Str &b) const { return val(a) < val(b); } };
struct StrGreater { bool operator()(const Str &a, const Str &b) const { return val(b) < val(a); } };
#endif
} // namespace H
