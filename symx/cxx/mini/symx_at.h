// A small symbolic model of the part of ATen that the host functions of csrc use.
// Sizes and strides are symbolic integers (SMT-LIB terms); every branch on one asks
// the driver for a decision and is printed, so that a run describes one path.
//   default        : sizes symbolic, kernel templates replaced by recorders (see mini.py)
//   -DSYMX_IR      : sizes plain int64_t, only there so that clang emits the kernels
#pragma once
#include <Python.h>
#include <algorithm>
#include <array>
#include <cassert>
#include <cmath>
#include <complex>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <iostream>
#include <iterator>
#include <limits>
#include <list>
#include <map>
#include <memory>
#include <numeric>
#include <optional>
#include <sstream>
#include <stdexcept>
#include <string>
#include <tuple>
#include <type_traits>
#include <utility>
#include <valarray>
#include <vector>

namespace symx
{
struct Reject { std::string why; };
struct Unsupported { std::string why; };
typedef long long ll;

#ifdef SYMX_IR
typedef int64_t SInt;
typedef bool SBool;
inline bool is_const(SInt, ll v) { return false; }
void *alloc(int id, ll bytes);
#else
bool decide(const std::string &cond);
void note(const std::string &line);
inline int depth = 0;        // open loop bodies
inline int par = -1;         // depth at which the innermost parallel region starts
inline std::vector<int> scopes;
inline int counter = 0;
void mutated(int birth, bool data);

struct SBool
{
    bool isc, c;
    std::string s;
    SBool(bool b) : isc(true), c(b), s(b ? "true" : "false") {}
    explicit SBool(const std::string &t) : isc(false), c(false), s(t) {}
    operator bool() const { return isc ? c : decide(s); }
};

template <class T> using arith = std::enable_if_t<std::is_arithmetic_v<T>, int>;

// an integer of 32 or 64 bits; every operation must stay in range (lines I / O)
struct SInt
{
    bool isc;
    ll c;
    int bits = 64;
    int birth = depth;
    std::string s;
    ll k = 0;        // the value is s + k
    SInt() : isc(true), c(0) {}
    template <class T, arith<T> = 0> SInt(T v) : isc(true), c((ll)v), bits(sizeof(T) <= 4 ? 32 : 64) {}
    SInt(const SBool &b) : isc(true), c((bool)b ? 1 : 0), bits(32) {}
    SInt(const std::string &t, int b) : isc(false), c(0), bits(b), s(t) {}
    SInt(const SInt &o) : isc(o.isc), c(o.c), bits(o.bits), s(o.s), k(o.k) {}
    SInt &operator=(const SInt &o)
    {
        mutated(birth, false);
        isc = o.isc;
        c = o.c;
        bits = o.bits;
        s = o.s;
        k = o.k;
        return *this;
    }
    static std::string num(ll c) { return c < 0 ? "(- " + std::to_string(-c) + ")" : std::to_string(c); }
    std::string str() const { return isc ? num(c) : k ? "(+ " + s + " " + num(k) + ")" : s; }
    ll val() const
    {
        if (!isc) throw Unsupported{"a dimension is used as a plain integer: " + str()};
        return c;
    }
    operator ll() const { return val(); }
    explicit operator bool() const { return isc ? c != 0 : decide("(not (= " + str() + " 0))"); }
    SInt operator-() const { return isc ? SInt(-c) : SInt("(- " + str() + ")", bits); }
    SInt &operator+=(const SInt &o);
    SInt &operator-=(const SInt &o);
    SInt &operator*=(const SInt &o);
    SInt &operator++() { return *this += SInt(1); }
    SInt &operator--() { return *this -= SInt(1); }
    SInt operator++(int) { SInt r = *this; ++*this; return r; }
    SInt operator--(int) { SInt r = *this; --*this; return r; }
};
inline void fits(const SInt &v)
{
    if (!v.isc) note(std::string(v.bits == 32 ? "I " : "O ") + v.str());
}
inline SInt op2(const char *o, const SInt &a, const SInt &b)
{
    std::string k(o);
    auto w = [&](SInt r) { r.bits = std::max(a.bits, b.bits); return r; };
    if (a.isc && b.isc)
    {
        if (k == "+") return w(a.c + b.c);
        if (k == "-") return w(a.c - b.c);
        if (k == "*") return w(a.c * b.c);
        if (b.c == 0) throw Unsupported{"division by zero"};
        if (k == "div") return w(a.c / b.c);
        return w(a.c % b.c);
    }
    if (k == "*" && ((a.isc && a.c == 1) || (b.isc && b.c == 0))) return w(b);
    if (k == "*" && ((b.isc && b.c == 1) || (a.isc && a.c == 0))) return w(a);
    if (k == "+" && a.isc && a.c == 0) return w(b);
    if ((k == "+" || k == "-") && b.isc && b.c == 0) return w(a);
    if (k == "-" && a.s == b.s && a.isc == b.isc) return w(a.k - b.k);
    if (b.isc && (k == "+" || k == "-"))
    {
        SInt r = a;
        r.k += k == "+" ? b.c : -b.c;
        r.bits = std::max(a.bits, b.bits);
        fits(r);
        return r;
    }
    if (a.isc && k == "+") return op2(o, b, a);
    if (b.isc && b.c == 1 && k == "div") return w(a);
    if (k == "div" || k == "mod") note("A (and (>= " + a.str() + " 0) (> " + b.str() + " 0))");
    SInt r("(" + k + " " + a.str() + " " + b.str() + ")", std::max(a.bits, b.bits));
    if (k != "div" && k != "mod") fits(r);
    return r;
}
inline SBool cmp(const char *o, const SInt &a, const SInt &b)
{
    std::string k(o);
    if (a.isc && b.isc)
        return k == "=" ? a.c == b.c : k == "<" ? a.c < b.c : a.c <= b.c;
    if (a.str() == b.str()) return k != "<";
    return SBool("(" + k + " " + a.str() + " " + b.str() + ")");
}
inline SBool snot(const SBool &b) { return b.isc ? SBool(!b.c) : SBool("(not " + b.s + ")"); }
#define SYMX_BIN(OP, EXPR, R)                                                               \
    inline R operator OP(const SInt &a, const SInt &b) { return EXPR; }                      \
    template <class T, arith<T> = 0> R operator OP(const SInt &a, T t) { SInt b(t); return EXPR; } \
    template <class T, arith<T> = 0> R operator OP(T t, const SInt &b) { SInt a(t); return EXPR; }
SYMX_BIN(+, op2("+", a, b), SInt)
SYMX_BIN(-, op2("-", a, b), SInt)
SYMX_BIN(*, op2("*", a, b), SInt)
SYMX_BIN(/, op2("div", a, b), SInt)
SYMX_BIN(%, op2("mod", a, b), SInt)
SYMX_BIN(==, cmp("=", a, b), SBool)
SYMX_BIN(!=, snot(cmp("=", a, b)), SBool)
SYMX_BIN(<, cmp("<", a, b), SBool)
SYMX_BIN(<=, cmp("<=", a, b), SBool)
SYMX_BIN(>, cmp("<", b, a), SBool)
SYMX_BIN(>=, cmp("<=", b, a), SBool)
inline SInt &SInt::operator+=(const SInt &o) { int w = bits; SInt r = op2("+", *this, o); r.bits = w; fits(r); return *this = r; }
inline SInt &SInt::operator-=(const SInt &o) { int w = bits; SInt r = op2("-", *this, o); r.bits = w; fits(r); return *this = r; }
inline SInt &SInt::operator*=(const SInt &o) { int w = bits; SInt r = op2("*", *this, o); r.bits = w; fits(r); return *this = r; }

inline bool is_const(const SInt &x, ll v) { return x.isc && x.c == v; }

// a variable of declared width: the value stored must fit
template <int W> struct SIntW : SInt
{
    SIntW() { bits = W; }
    SIntW(const SIntW &o) : SInt(o) {}
    template <class T, arith<T> = 0> SIntW(T v) : SInt(v) { bits = W; }
    SIntW(const SInt &v) : SInt(v)
    {
        bool n = bits > W;
        bits = W;
        if (n) fits(*this);
    }
    SIntW &operator=(const SInt &v) { SIntW w(v); SInt::operator=(w); bits = W; return *this; }
    SIntW &operator=(const SIntW &v) { SInt::operator=(v); bits = W; return *this; }
};
typedef SIntW<32> SInt32;
typedef SIntW<64> SInt64;

inline void open(int id) { scopes.push_back(id); ++depth; note("{ " + std::to_string(id)); }
inline void close() { scopes.pop_back(); --depth; note("}"); }
inline SInt var(const char *p)
{
    SInt r(p + std::to_string(counter++), 64);
    note("E " + r.s);
    return r;
}
extern std::vector<int> unroll;
extern int trips;

// for (v = lo; v OP hi; v += step): the body is run once for an arbitrary iteration
// (concretely if the bounds are constants, one decision per iteration if listed in `unroll`)
struct Loop
{
    SInt lo, hi, step, cur;
    std::string op;
    int id, mode = 0, n = 0, oldpar = -1;
    bool pr, first = true, in = false, unused = true;
    Loop(int id, const SInt &lo, const char *op, const SInt &hi, const SInt &step, int npar, const SBool &when = true)
        : lo(lo), hi(hi), step(step), op(op), id(id), pr(npar > 0 && !(when.isc && !when.c))
    {
        bool u = std::find(unroll.begin(), unroll.end(), id) != unroll.end();
        if (!step.isc || step.c == 0) throw Unsupported{"loop step"};
        bool pr = this->pr;
        if (pr) mode = 0;
        else if (lo.isc && hi.isc) mode = 1;
        else if (u) mode = 2;
        if (pr)
        {
            if (par >= 0) throw Unsupported{"nested parallel regions"};
            oldpar = par;
            par = depth + 1;
            note("P k " + std::to_string(npar));
            if (!when.isc) note("F " + when.s);
        }
        cur = lo;
    }
    SBool cond(const SInt &v) const
    {
        if (op == "<") return v < hi;
        if (op == "<=") return v <= hi;
        if (op == ">") return v > hi;
        if (op == ">=") return v >= hi;
        return v != hi;
    }
    void leave()
    {
        if (in) close();
        in = false;
    }
    bool more()
    {
        leave();
        unused = true;
        if (mode == 0)
        {
            if (!first) return false;
            first = false;
            open(id);
            in = true;
            cur.birth = depth;
            cur = var("k");
            if (step.c == 1 || step.c == -1)
                note("a " + std::string(step.c > 0 ? "(<= " + lo.str() + " " + cur.str() + ")" : "(<= " + cur.str() + " " + lo.str() + ")"));
            else
            {
                SInt j = var("j");
                note("a (and (>= " + j.str() + " 0) (= " + cur.str() + " (+ " + lo.str() + " (* " + SInt(step.c).str() + " " + j.str() + "))))");
            }
            std::string h = hi.str(), c = cur.str();
            if (op == "!=")
                note(step.c > 0 ? "a (< " + c + " " + h + ")" : "a (> " + c + " " + h + ")");
            else note("a (" + op + " " + c + " " + h + ")");
            return true;
        }
        cur.birth = depth;
        if (n++) cur = cur + step;
        if (mode == 2 && n > trips) { note("Z"); throw Unsupported{"unroll bound"}; }
        if (mode == 1 && n > 64) throw Unsupported{"long constant loop"};
        return cond(cur);
    }
    SInt value() const { return cur; }
    bool once()
    {
        bool r = unused;
        unused = false;
        return r;
    }
    ~Loop()
    {
        leave();
        if (pr)
        {
            par = oldpar;
            note("p");
        }
    }
};
// any other loop: bounded
struct While
{
    int n = 0;
    bool more()
    {
        if (++n > trips + 1) { note("Z"); throw Unsupported{"unroll bound"}; }
        return true;
    }
};
struct Frame
{
    Frame(const char *n) { note(std::string("N ") + n); }
    ~Frame() { note("n"); }
};
#endif
} // namespace symx

namespace c10
{
using symx::SInt;
using symx::SBool;
using symx::Unsupported;
enum class ScalarType { Byte, Char, Short, Int, Long, Half, Float, Double, ComplexHalf, ComplexFloat, ComplexDouble, Bool, BFloat16, Undefined };
enum class MemoryFormat { Contiguous, Preserve, ChannelsLast, ChannelsLast3d };
struct IntArrayRef
{
    std::vector<SInt> v;
    IntArrayRef() {}
    IntArrayRef(std::initializer_list<SInt> l) : v(l) {}
    IntArrayRef(const std::vector<SInt> &l) : v(l) {}
    template <size_t n> IntArrayRef(const std::array<SInt, n> &l) : v(l.begin(), l.end()) {}
    size_t size() const { return v.size(); }
    const SInt &operator[](long long i) const { return v.at(i < 0 ? i + v.size() : i); }
    auto begin() const { return v.begin(); }
    auto end() const { return v.end(); }
    std::vector<SInt> vec() const { return v; }
    const SInt &back() const { return v.back(); }
    const SInt &front() const { return v.front(); }
};
struct Device
{
    bool cuda = false;
    bool is_cuda() const { return cuda; }
    bool is_cpu() const { return !cuda; }
    bool operator==(const Device &o) const { return cuda == o.cuda; }
    bool operator!=(const Device &o) const { return cuda != o.cuda; }
};
inline constexpr ScalarType kByte = ScalarType::Byte, kInt = ScalarType::Int, kLong = ScalarType::Long, kHalf = ScalarType::Half, kFloat = ScalarType::Float,
    kDouble = ScalarType::Double, kBool = ScalarType::Bool, kBFloat16 = ScalarType::BFloat16, kComplexFloat = ScalarType::ComplexFloat,
    kComplexDouble = ScalarType::ComplexDouble;
inline bool isComplexType(ScalarType t) { return t == kComplexDouble || t == kComplexFloat || t == ScalarType::ComplexHalf; }
inline bool isFloatingType(ScalarType t) { return t == kDouble || t == kFloat || t == kHalf || t == kBFloat16; }
// element types; distinct per dtype
#ifdef SYMX_IR
template <int T> using Elem = double;
template <class E> using Ptr = E *;
#else
template <int T> struct Elem;
template <class E> struct Ptr;
inline SBool data_bool()
{
    std::string n = "d" + std::to_string(symx::counter++);
    symx::note("F " + n);
    return SBool(n);
}
template <int T> struct Elem
{
    int sto = -1;
    SInt idx;
    int birth = symx::depth;
    void rd() const
    {
        if (sto >= 0) symx::note("M R " + std::to_string(sto) + " " + idx.str());
    }
    void wr() const
    {
        if (sto >= 0) symx::note("M W " + std::to_string(sto) + " " + idx.str());
        else symx::mutated(birth, true);
    }
    Elem() {}
    Elem(int s, const SInt &i) : sto(s), idx(i) {}
    Elem(const Elem &o) { o.rd(); }
    template <class U, symx::arith<U> = 0> Elem(U) {}
    Elem(const SInt &) {}
    Elem &operator=(const Elem &o) { o.rd(); wr(); return *this; }
    Elem &operator+=(const Elem &o) { o.rd(); rd(); wr(); return *this; }
    Elem &operator-=(const Elem &o) { return *this += o; }
    Elem &operator*=(const Elem &o) { return *this += o; }
    Elem &operator/=(const Elem &o) { return *this += o; }
    Elem operator-() const { rd(); return Elem(); }
    friend Elem operator+(const Elem &a, const Elem &b) { a.rd(); b.rd(); return Elem(); }
    friend Elem operator-(const Elem &a, const Elem &b) { a.rd(); b.rd(); return Elem(); }
    friend Elem operator*(const Elem &a, const Elem &b) { a.rd(); b.rd(); return Elem(); }
    friend Elem operator/(const Elem &a, const Elem &b) { a.rd(); b.rd(); return Elem(); }
    friend SBool operator==(const Elem &a, const Elem &b) { a.rd(); b.rd(); return data_bool(); }
    friend SBool operator!=(const Elem &a, const Elem &b) { a.rd(); b.rd(); return data_bool(); }
    friend SBool operator<(const Elem &a, const Elem &b) { a.rd(); b.rd(); return data_bool(); }
    friend SBool operator>(const Elem &a, const Elem &b) { a.rd(); b.rd(); return data_bool(); }
    friend SBool operator<=(const Elem &a, const Elem &b) { a.rd(); b.rd(); return data_bool(); }
    friend SBool operator>=(const Elem &a, const Elem &b) { a.rd(); b.rd(); return data_bool(); }
    friend Elem fma(const Elem &a, const Elem &b, const Elem &c) { return a * b + c; }
    friend Elem conj(const Elem &a) { return -a; }
    Ptr<Elem> operator&();
    Ptr<const Elem> operator&() const;
};
template <class E> struct Ptr
{
    typedef std::remove_const_t<E> V;
    typedef E value_type;
    typedef std::random_access_iterator_tag iterator_category;
    typedef long long difference_type;
    typedef E *pointer;
    typedef E &reference;
    int sto = -1;
    SInt off;
    int birth = symx::depth;
    Ptr() {}
    Ptr(std::nullptr_t) {}
    Ptr(int s, const SInt &o) : sto(s), off(o) {}
    Ptr(const Ptr &o) : sto(o.sto), off(o.off) {}
    template <class U, std::enable_if_t<std::is_same_v<const U, E>, int> = 0> Ptr(const Ptr<U> &o) : sto(o.sto), off(o.off) {}
    Ptr &operator=(const Ptr &o)
    {
        symx::mutated(birth, false);
        int b = off.birth;
        off.birth = symx::depth;
        sto = o.sto;
        off = o.off;
        off.birth = b;
        return *this;
    }
    E &at(const SInt &i) const
    {
        static std::list<V> arena;
        if (sto < 0) throw Unsupported{"null pointer"};
        arena.emplace_back(sto, off + i);
        return arena.back();
    }
    E &operator[](const SInt &i) const { return at(i); }
    E &operator*() const { return at(SInt(0)); }
    E *operator->() const { return std::addressof(at(SInt(0))); }
    friend Ptr operator+(const Ptr &p, const SInt &i) { return Ptr(p.sto, p.off + i); }
    friend Ptr operator+(const SInt &i, const Ptr &p) { return Ptr(p.sto, p.off + i); }
    friend Ptr operator-(const Ptr &p, const SInt &i) { return Ptr(p.sto, p.off - i); }
    friend SInt operator-(const Ptr &a, const Ptr &b)
    {
        if (a.sto != b.sto) throw Unsupported{"difference of unrelated pointers"};
        return a.off - b.off;
    }
    Ptr &operator+=(const SInt &i) { return *this = *this + i; }
    Ptr &operator-=(const SInt &i) { return *this = *this - i; }
    Ptr &operator++() { return *this += SInt(1); }
    Ptr &operator--() { return *this -= SInt(1); }
    Ptr operator++(int) { Ptr r = *this; ++*this; return r; }
    Ptr operator--(int) { Ptr r = *this; --*this; return r; }
    friend SBool operator==(const Ptr &a, const Ptr &b) { return a.sto == b.sto ? a.off == b.off : SBool(false); }
    friend SBool operator!=(const Ptr &a, const Ptr &b) { return symx::snot(a == b); }
    friend SBool operator<(const Ptr &a, const Ptr &b) { return (a - b) < SInt(0); }
};
template <int T> Ptr<Elem<T>> Elem<T>::operator&()
{
    if (sto < 0) throw Unsupported{"address of a local scalar"};
    return Ptr<Elem>(sto, idx);
}
template <int T> Ptr<const Elem<T>> Elem<T>::operator&() const
{
    if (sto < 0) throw Unsupported{"address of a local scalar"};
    return Ptr<const Elem>(sto, idx);
}
#endif
} // namespace c10

namespace at
{
using namespace c10;
using symx::SBool;
using symx::Reject;
using symx::Unsupported;
struct TensorOptions { ScalarType dt; };

struct Storage
{
    int id;
    SInt numel;
    bool init, input;
    void *mem;
    bool written = false;
};

struct Tensor
{
    std::vector<SInt> sz, st;
    SInt off = 0;
    bool layout_unknown = false;
    std::string pristine;      // an input, with the strides it came with
    std::shared_ptr<Storage> sto;
    ScalarType dt = ScalarType::Undefined;

    static int next() { static int n = 0; return n++; }
    static Tensor fresh(const std::vector<SInt> &sizes, ScalarType dt, bool init)
    {
        Tensor t;
        t.sz = sizes;
        t.dt = dt;
        SInt n = 1;
        t.st.resize(sizes.size());
        for (size_t i = sizes.size(); i-- > 0;)
        {
            t.st[i] = n;
            n = sizes[i] * n;
        }
        t.sto = std::make_shared<Storage>(Storage{next(), n, init, false, nullptr});
#ifdef SYMX_IR
        t.sto->mem = symx::alloc(t.sto->id, n * 8);
#else
        symx::note("D " + std::to_string(t.sto->id) + " " + (init ? "1 " : "0 ") + n.str());
#endif
        return t;
    }
    bool defined() const { return (bool)sto; }
    size_t wrap(const SInt &d, size_t n) const
    {
        long long i = (long long)d;
        if (i < 0) i += n;
        if (i < 0 || i >= (long long)n) throw Reject{"dimension out of range"};
        return i;
    }
    SInt size(SInt d) const { return sz[wrap(d, sz.size())]; }
    SInt sym_size(SInt d) const { return size(d); }
    SInt stride(SInt d) const { return st[wrap(d, sz.size())]; }
    IntArrayRef sizes() const { return IntArrayRef(sz); }
    IntArrayRef strides() const { return IntArrayRef(st); }
    long long dim() const { return (long long)sz.size(); }
    long long ndimension() const { return dim(); }
    SInt numel() const
    {
        SInt n = 1;
        for (size_t i = sz.size(); i-- > 0;) n = sz[i] * n;
        return n;
    }
    ScalarType scalar_type() const { return dt; }
    ScalarType dtype() const { return dt; }
    TensorOptions options() const { return {dt}; }
    Device device() const { return {}; }
    bool is_cuda() const { return false; }
    bool is_cpu() const { return true; }
    bool is_complex() const { return isComplexType(dt); }
    bool is_floating_point() const { return isFloatingType(dt); }
    SBool contig() const
    {
#ifdef SYMX_IR
        return true;
#else
        if (layout_unknown) return SBool("layout" + std::to_string(sto->id));
        if (pristine.size()) return SBool("contig_" + pristine);
        SInt n = 1;
        std::string c = "true";
        bool all = true;
        for (size_t i = sz.size(); i-- > 0;)
        {
            SBool e = symx::cmp("=", st[i], n), one = symx::cmp("=", sz[i], 1);
            if (!(e.isc && e.c) && !(one.isc && one.c))
            {
                all = false;
                c = "(and " + c + " (or " + e.s + " " + one.s + "))";
            }
            n = sz[i] * n;
        }
        if (all) return true;
        return SBool("(or (= " + numel().str() + " 0) " + c + ")");
#endif
    }
    SBool is_contiguous(MemoryFormat = MemoryFormat::Contiguous) const { return contig(); }
    Tensor contiguous(MemoryFormat = MemoryFormat::Contiguous) const
    {
        if (layout_unknown)
        {
            Tensor r = fresh(sz, dt, sto->init);
            return r;
        }
        if (contig()) return *this;
        return fresh(sz, dt, sto->init);
    }
    Tensor clone() const { return fresh(sz, dt, sto->init); }
    Tensor unsqueeze(SInt d) const
    {
        Tensor r = *this;
        r.pristine.clear();
        size_t i = wrap(d, sz.size() + 1);
        SInt s = i < sz.size() ? sz[i] * st[i] : SInt(1);
        r.sz.insert(r.sz.begin() + i, SInt(1));
        r.st.insert(r.st.begin() + i, s);
        return r;
    }
    Tensor squeeze(SInt d) const
    {
        Tensor r = *this;
        r.pristine.clear();
        size_t i = wrap(d, sz.size());
        if (sz[i] == 1)
        {
            r.sz.erase(r.sz.begin() + i);
            r.st.erase(r.st.begin() + i);
        }
        return r;
    }
    Tensor transpose(SInt a, SInt b) const
    {
        Tensor r = *this;
        r.pristine.clear();
        size_t i = wrap(a, sz.size()), j = wrap(b, sz.size());
        std::swap(r.sz[i], r.sz[j]);
        std::swap(r.st[i], r.st[j]);
        return r;
    }
    Tensor t() const
    {
        if (sz.size() > 2) throw Reject{"t() expects at most 2 dimensions"};
        return sz.size() < 2 ? *this : transpose(0, 1);
    }
    Tensor mT() const { return transpose(-2, -1); }
    Tensor permute(const IntArrayRef &p) const
    {
        Tensor r = *this;
        r.pristine.clear();
        if (p.size() != sz.size()) throw Reject{"permute: wrong number of dimensions"};
        for (size_t i = 0; i < p.size(); i++)
        {
            r.sz[i] = sz[wrap(p[i], sz.size())];
            r.st[i] = st[wrap(p[i], sz.size())];
        }
        return r;
    }
    std::vector<SInt> infer(const IntArrayRef &shape) const
    {
        std::vector<SInt> o = shape.v;
        SInt known = 1, n = numel();
        int hole = -1;
        for (size_t i = o.size(); i-- > 0;)
        {
            if (symx::is_const(o[i], -1)) hole = (int)i;
            else known = o[i] * known;
        }
        if (hole >= 0)
        {
            if (n % known != 0) throw Reject{"shape is invalid for input"};
            o[hole] = n / known;
        }
        else if (known != n) throw Reject{"shape is invalid for input"};
        return o;
    }
    Tensor view(const IntArrayRef &shape) const
    {
        std::vector<SInt> o = infer(shape);
        if (!contig()) throw Unsupported{"view of a tensor that is not contiguous"};
        Tensor r = fresh(o, dt, sto->init);
        r.sto = sto;
        r.off = off;
        return r;
    }
    Tensor reshape(const IntArrayRef &shape) const
    {
        std::vector<SInt> o = infer(shape);
        if (!layout_unknown && contig())
        {
            Tensor r = fresh(o, dt, sto->init);
            r.sto = sto;
            r.off = off;
            return r;
        }
        return fresh(o, dt, sto->init);      // a copy (or a view of the same elements)
    }
    Tensor slice(SInt d, std::optional<SInt> from = {}, std::optional<SInt> to = {}, SInt step = 1) const
    {
        Tensor r = *this;
        r.pristine.clear();
        size_t i = wrap(d, sz.size());
        SInt n = sz[i], a = from ? *from : SInt(0), b = to ? *to : n;
        if (a < 0) a = a + n;
        if (b < 0) b = b + n;
        if (a < 0) a = 0;
        if (n < a) a = n;
        if (b < a) b = a;
        if (n < b) b = n;
        r.sz[i] = (b - a + step - 1) / step;
        r.off = off + st[i] * a;
        r.st[i] = st[i] * step;
        return r;
    }
    Tensor narrow(SInt d, SInt start, SInt len) const
    {
        size_t i = wrap(d, sz.size());
        if (start < 0 || len < 0 || sz[i] < start + len) throw Reject{"narrow out of range"};
        return slice(d, start, start + len);
    }
    Tensor select(SInt d, SInt i) const
    {
        Tensor r = *this;
        r.pristine.clear();
        size_t k = wrap(d, sz.size());
        if (i < 0) i = i + sz[k];
        if (i < 0 || sz[k] <= i) throw Reject{"select out of range"};
        r.off = off + st[k] * i;
        r.sz.erase(r.sz.begin() + k);
        r.st.erase(r.st.begin() + k);
        return r;
    }
    Tensor expand(const IntArrayRef &shape) const
    {
        Tensor r = *this;
        r.pristine.clear();
        size_t n = shape.size(), m = sz.size();
        if (n < m) throw Reject{"expand: too few dimensions"};
        r.sz.assign(n, 0);
        r.st.assign(n, 0);
        for (size_t i = 0; i < n; i++)
        {
            bool has = i >= n - m;
            if (has && symx::is_const(shape[i], -1))
            {
                r.sz[i] = sz[i - (n - m)];
                r.st[i] = st[i - (n - m)];
                continue;
            }
            r.sz[i] = shape[i];
            if (has && sz[i - (n - m)] == shape[i]) r.st[i] = st[i - (n - m)];
            else if (has && sz[i - (n - m)] != 1) throw Reject{"expand: size mismatch"};
        }
        return r;
    }
    Tensor flatten(SInt a = 0, SInt b = -1) const
    {
        size_t i = wrap(a, sz.size()), j = wrap(b, sz.size());
        std::vector<SInt> o(sz.begin(), sz.begin() + i);
        SInt n = 1;
        for (size_t k = j + 1; k-- > i;) n = sz[k] * n;
        o.push_back(n);
        o.insert(o.end(), sz.begin() + j + 1, sz.end());
        return reshape(o);
    }
    Tensor to(ScalarType t) const { return t == dt ? *this : fresh(sz, t, sto->init); }
    Tensor conj() const { return *this; }
    Tensor zero_() const { sto->init = true; return *this; }
    template <class T> Tensor fill_(T) const { sto->init = true; return *this; }
    Tensor copy_(const Tensor &) const { sto->init = true; return *this; }
    Tensor new_empty(const IntArrayRef &s) const { return fresh(s.v, dt, false); }
    Tensor new_zeros(const IntArrayRef &s) const { return fresh(s.v, dt, true); }
    template <class T> Ptr<T> ptr() const
    {
#ifdef SYMX_IR
        return (T *)sto->mem + off;
#else
        if (!check<T>()) throw Reject{"scalar type mismatch"};
        return Ptr<T>(sto->id, off);
#endif
    }
    template <class T> bool check() const
    {
        bool ok = false;
        [&]<int... I>(std::integer_sequence<int, I...>)
        { ((ok = ok || ((int)dt == I && std::is_same_v<std::remove_const_t<T>, Elem<I>>)), ...); }(std::make_integer_sequence<int, 14>{});
        return ok;
    }
    template <class T> Ptr<const T> const_data_ptr() const { return ptr<const T>(); }
    template <class T> Ptr<T> mutable_data_ptr() const { sto->written = true; return ptr<T>(); }
    template <class T> Ptr<T> data_ptr() const { return mutable_data_ptr<T>(); }
    template <class T> T item() const
    {
        if (numel() != 1) throw Reject{"a Tensor with more than one element cannot be converted to Scalar"};
        return T();
    }
};
typedef std::vector<Tensor> TensorVec;
struct TensorList : std::vector<Tensor>
{
    TensorList(std::initializer_list<Tensor> l) : std::vector<Tensor>(l) {}
    TensorList(const std::vector<Tensor> &l) : std::vector<Tensor>(l) {}
};

inline Tensor empty(const IntArrayRef &s, TensorOptions o) { return Tensor::fresh(s.v, o.dt, false); }
inline Tensor zeros(const IntArrayRef &s, TensorOptions o) { return Tensor::fresh(s.v, o.dt, true); }
inline Tensor like(const Tensor &x, bool init)
{
    // preserve_format: the strides of a dense tensor are kept; they only matter if they reach the result
    Tensor r = Tensor::fresh(x.sz, x.dt, init);
    if (!(x.contig())) r.layout_unknown = true;
    return r;
}
inline Tensor empty_like(const Tensor &x) { return like(x, false); }
inline Tensor zeros_like(const Tensor &x) { return like(x, true); }
inline Tensor empty_like(const Tensor &x, MemoryFormat) { return Tensor::fresh(x.sz, x.dt, false); }
inline Tensor cat(const TensorList &l, SInt d = 0)
{
    if (l.empty()) throw Reject{"cat of nothing"};
    const Tensor &f = l[0];
    size_t i = f.wrap(d, f.sz.size());
    SInt n = f.sz[i];
    bool init = f.sto->init;
    ScalarType dt = f.dt;
    for (size_t k = 1; k < l.size(); k++)
    {
        if (l[k].sz.size() != f.sz.size()) throw Reject{"cat: ranks differ"};
        for (size_t j = 0; j < f.sz.size(); j++)
            if (j != i && l[k].sz[j] != f.sz[j]) throw Reject{"cat: sizes differ"};
        n = n + l[k].sz[i];
        init = init && l[k].sto->init;
        if (l[k].dt != dt) throw Unsupported{"cat with type promotion"};
    }
    std::vector<SInt> o = f.sz;
    o[i] = n;
    Tensor r = Tensor::fresh(o, dt, init);
    r.layout_unknown = o.size() > 3;     // 4-D results follow the memory format of the inputs
    return r;
}
inline Tensor constant_pad_nd(const Tensor &x, const IntArrayRef &p, double = 0)
{
    if (p.size() % 2 || p.size() / 2 > x.sz.size()) throw Reject{"pad: bad length"};
    std::vector<SInt> o = x.sz;
    for (size_t i = 0; i < p.size() / 2; i++)
    {
        size_t d = o.size() - 1 - i;
        o[d] = o[d] + p[2 * i] + p[2 * i + 1];
        if (o[d] < 0) throw Reject{"pad: negative size"};
    }
    Tensor r = Tensor::fresh(o, x.dt, x.sto->init);
    r.layout_unknown = o.size() > 3;
    return r;
}
inline Tensor pad(const Tensor &x, const IntArrayRef &p, const std::string &mode = "constant", std::optional<double> = {})
{
    if (mode != "constant") throw Unsupported{"pad mode " + mode};
    return constant_pad_nd(x, p);
}
inline Tensor stack(const TensorList &l, SInt d = 0)
{
    std::vector<Tensor> u;
    for (auto &t : l) u.push_back(t.unsqueeze(d));
    return cat(TensorList(u), d);
}

#ifdef SYMX_IR
}
namespace symx { bool chunk(ll b, ll e, ll &s, ll &t); }
namespace at {
template <class F> void parallel_for(int64_t b, int64_t e, int64_t, const F &f)
{
    symx::ll s, t;
    while (symx::chunk(b, e, s, t)) f(s, t);
}
#else
// any chunk [s, t) of the range
template <class F> void parallel_for(const SInt &b, const SInt &e, const SInt &, const F &f)
{
    if (symx::par >= 0) throw Unsupported{"nested parallel regions"};
    symx::par = symx::depth + 1;
    symx::note("P c 1");
    symx::open(-1);
    {
        SInt s = symx::var("s"), t = symx::var("t");
        symx::note("a (and (<= " + b.str() + " " + s.str() + ") (< " + s.str() + " " + t.str() + ") (<= " + t.str() + " " + e.str() + "))");
        f(symx::SInt64(s), symx::SInt64(t));
    }
    symx::close();
    symx::par = -1;
    symx::note("p");
}
#endif
inline int get_num_threads() { return 1; }
inline std::optional<Device> device_of(const Tensor &) { return Device(); }

enum class Tag { pt2_compliant_tag, core, pointwise };
} // namespace at
namespace torch
{
using namespace at;
using at::Tensor;
}

namespace symx
{
typedef at::Tensor (*Fn)(const at::Tensor &, const at::Tensor &, const at::Tensor &);
std::map<std::string, Fn> &registry();
struct Lib
{
    std::string key;
    template <class... X> void def(X &&...) {}
    template <class F> void impl(const char *n, F *f) { registry()[key + "/" + n] = (Fn)f; }
    void def(const char *, std::vector<at::Tag>) {}
};
struct Reg
{
    Reg(const char *key, void (*f)(Lib &))
    {
        Lib l{key};
        f(l);
    }
};

} // namespace symx

#define TORCH_CHECK(c, ...) do { if (!(c)) throw symx::Reject{#c}; } while (0)
#define TORCH_CHECK_VALUE TORCH_CHECK
#define TORCH_CHECK_TYPE TORCH_CHECK
#define TORCH_CHECK_INDEX TORCH_CHECK
#define TORCH_INTERNAL_ASSERT TORCH_CHECK
#define AT_ASSERT TORCH_CHECK
#define AT_ERROR(...) throw symx::Reject{"error"}
#define TORCH_FN(f) f
#define C10_CUDA_KERNEL_LAUNCH_CHECK()
#define C10_CUDA_CHECK(x) x
#define SYMX_CASE(T, F) case T: { using scalar_t [[maybe_unused]] = c10::Elem<(int)T>; F(); break; }
#ifdef SYMX_IR
#define SYMX_DISPATCH(TYPE, F, ...) { using scalar_t [[maybe_unused]] = double; F(); }
#else
#define SYMX_DISPATCH(TYPE, F, ...) switch (TYPE) { __VA_ARGS__ default: throw symx::Reject{"not implemented for this dtype"}; }
#endif
#define SYMX_FL(F) SYMX_CASE(c10::kDouble, F) SYMX_CASE(c10::kFloat, F)
#define SYMX_CX(F) SYMX_CASE(c10::kComplexDouble, F) SYMX_CASE(c10::kComplexFloat, F)
#define AT_DISPATCH_FLOATING_TYPES(TYPE, NAME, ...) SYMX_DISPATCH(TYPE, (__VA_ARGS__), SYMX_FL((__VA_ARGS__)))
#define AT_DISPATCH_FLOATING_AND_COMPLEX_TYPES(TYPE, NAME, ...) SYMX_DISPATCH(TYPE, (__VA_ARGS__), SYMX_FL((__VA_ARGS__)) SYMX_CX((__VA_ARGS__)))
#define AT_DISPATCH_FLOATING_AND_COMPLEX_TYPES_AND(A1, TYPE, NAME, ...) SYMX_DISPATCH(TYPE, (__VA_ARGS__), SYMX_FL((__VA_ARGS__)) SYMX_CX((__VA_ARGS__)) SYMX_CASE(A1, (__VA_ARGS__)))
#define AT_DISPATCH_FLOATING_AND_COMPLEX_TYPES_AND1 AT_DISPATCH_FLOATING_AND_COMPLEX_TYPES_AND
#define AT_DISPATCH_FLOATING_AND_COMPLEX_TYPES_AND2(A1, A2, TYPE, NAME, ...) SYMX_DISPATCH(TYPE, (__VA_ARGS__), SYMX_FL((__VA_ARGS__)) SYMX_CX((__VA_ARGS__)) SYMX_CASE(A1, (__VA_ARGS__)) SYMX_CASE(A2, (__VA_ARGS__)))
#define AT_DISPATCH_FLOATING_AND_COMPLEX_TYPES_AND3(A1, A2, A3, TYPE, NAME, ...) SYMX_DISPATCH(TYPE, (__VA_ARGS__), SYMX_FL((__VA_ARGS__)) SYMX_CX((__VA_ARGS__)) SYMX_CASE(A1, (__VA_ARGS__)) SYMX_CASE(A2, (__VA_ARGS__)) SYMX_CASE(A3, (__VA_ARGS__)))
#define AT_DISPATCH_ALL_TYPES_AND_COMPLEX(TYPE, NAME, ...) AT_DISPATCH_FLOATING_AND_COMPLEX_TYPES_AND2(c10::kLong, c10::kInt, TYPE, NAME, __VA_ARGS__)
#define SYMX_CAT_(a, b) a##b
#define SYMX_CAT(a, b) SYMX_CAT_(a, b)
#define SYMX_LIB(key, m, id) static void SYMX_CAT(symx_lib, id)(symx::Lib &); static symx::Reg SYMX_CAT(symx_reg, id)(key, &SYMX_CAT(symx_lib, id)); static void SYMX_CAT(symx_lib, id)(symx::Lib & m)
#define TORCH_LIBRARY_IMPL(ns, key, m) SYMX_LIB(#key, m, __COUNTER__)
#define TORCH_LIBRARY(ns, m) SYMX_LIB("def", m, __COUNTER__)
#define TORCH_LIBRARY_FRAGMENT(ns, m) SYMX_LIB("def", m, __COUNTER__)

