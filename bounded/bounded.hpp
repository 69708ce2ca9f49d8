// Bounded stand-ins (never counted as proved): the real algorithms over the same continuation contract as the
// proofs, on concrete sequences of up to 9 elements (rarely 40) with up to 4 different keys, arbitrary splits,
// both schedules.  They run only for a contract file with an undecided entry, or which does not compile
// against the current tree, and in the thorough tier as a cross-check of the models used by the proofs.
#ifndef VF_BOUNDED_HPP
#define VF_BOUNDED_HPP
#include <algorithm>
#include <functional>
#include <iterator>
#include <list>
#include <memory>
#include <numeric>
#include <string>
#include <vector>
#include <verif.hpp>
namespace vb
{
struct El { long k = 0, id = 0; El() {} El(long a, long b) : k(a), id(b) {} };
inline bool operator==(El const& a, El const& b) { return a.k == b.k; }
inline bool operator!=(El const& a, El const& b) { return a.k != b.k; }
inline bool operator<(El const& a, El const& b) { return a.k < b.k; }
inline long idx_of(El* p) { return (long)p / (long)sizeof(El); }
inline void set_idx(El*& p, long v) { p = (El*)((char*)p + (v - idx_of(p)) * (long)sizeof(El)); }
inline long idx_of(El const* p) { return (long)p / (long)sizeof(El); }
inline void set_idx(El const*& p, long v) { p = (El const*)((char const*)p + (v - idx_of(p)) * (long)sizeof(El)); }
template <class P, class C> long idx_of(__gnu_cxx::__normal_iterator<P, C> it) { return (long)&*it / (long)sizeof(*it); }
template <class P, class C> void set_idx(__gnu_cxx::__normal_iterator<P, C>& it, long v) { it += v - idx_of(it); }
// iterators with checked access into one of four arrays
inline std::vector<El> M[4];
inline long lo_[4], hi_[4];
template <class Cat> struct itx
{
    typedef Cat iterator_category; typedef El value_type; typedef long difference_type; typedef El* pointer; typedef El& reference;
    int s; long i;
    itx() : s(0), i(0) {}
    itx(int q, long x) : s(q), i(x) {}
    El& at(long x) const { verif_assert(lo_[s] <= x && x < hi_[s], "frame: only elements inside the given range are accessed"); return M[s][x]; }
    reference operator*() const { return at(i); }
    pointer operator->() const { return &at(i); }
    reference operator[](long n) const { return at(i + n); }
    itx& operator++() { ++i; return *this; }
    itx operator++(int) { itx r(*this); ++i; return r; }
    itx& operator--() { --i; return *this; }
    itx operator--(int) { itx r(*this); --i; return r; }
    itx& operator+=(long n) { i += n; return *this; }
    itx& operator-=(long n) { i -= n; return *this; }
    friend itx operator+(itx a, long n) { return itx(a.s, a.i + n); }
    friend itx operator+(long n, itx a) { return itx(a.s, a.i + n); }
    friend itx operator-(itx a, long n) { return itx(a.s, a.i - n); }
    friend long operator-(itx a, itx b) { return a.i - b.i; }
    friend bool operator==(itx a, itx b) { return a.s == b.s && a.i == b.i; }
    friend bool operator!=(itx a, itx b) { return !(a == b); }
    friend bool operator<(itx a, itx b) { return a.i < b.i; }
    friend bool operator>(itx a, itx b) { return a.i > b.i; }
    friend bool operator<=(itx a, itx b) { return a.i <= b.i; }
    friend bool operator>=(itx a, itx b) { return a.i >= b.i; }
};
template <class C> long idx_of(itx<C> it) { return it.i; }
template <class C> void set_idx(itx<C>& it, long v) { it.i = v; }
typedef itx<std::random_access_iterator_tag> it;
}
#include <vf_seq.hpp>
namespace vb
{
using namespace vf;
inline int keys = 4;
inline long size_(const char* n, long lo = 0) { return verif_choice(20, "long range") == 0 ? verif_nondet_range(n, lo, 41) : verif_nondet_range(n, lo, 10); }
inline std::vector<El> some(long n, long id0 = 0)
{
    std::vector<El> v;
    int shape = verif_choice(4, "shape (0 any,1 ascending,2 descending,3 equal)");
    for (long i = 0; i < n; ++i) v.push_back(El(verif_choice(keys, "key"), id0 + i));
    if (shape == 1) std::sort(v.begin(), v.end(), [](El const& a, El const& b) { return a.k < b.k; });
    if (shape == 2) std::sort(v.begin(), v.end(), [](El const& a, El const& b) { return a.k > b.k; });
    if (shape == 3) for (auto& e : v) e.k = 1;
    for (long i = 0; i < n; ++i) v[i].id = id0 + i;
    return v;
}
// sequence s gets the elements v inside guard elements: the range is [1, n+1)
inline void put(int s, std::vector<El> v)
{
    long n = (long)v.size();
    M[s].assign(1, El(77, -1)); M[s].insert(M[s].end(), v.begin(), v.end()); M[s].push_back(El(77, -2));
    lo_[s] = 1; hi_[s] = n + 1;
}
inline std::vector<El> got(int s) { return std::vector<El>(M[s].begin() + 1, M[s].end() - 1); }
inline it B(int s) { return it(s, 1); }
inline it E(int s) { return it(s, (long)M[s].size() - 1); }
inline bool same(std::vector<El> const& a, std::vector<El> const& b)
{
    if (a.size() != b.size()) return false;
    for (std::size_t i = 0; i < a.size(); ++i) if (a[i].k != b[i].k || a[i].id != b[i].id) return false;
    return true;
}
inline bool samek(std::vector<El> const& a, std::vector<El> const& b)
{
    if (a.size() != b.size()) return false;
    for (std::size_t i = 0; i < a.size(); ++i) if (a[i].k != b[i].k) return false;
    return true;
}
inline bool perm(std::vector<El> a, std::vector<El> b)
{
    auto l = [](El const& x, El const& y) { return x.id != y.id ? x.id < y.id : x.k < y.k; };
    std::sort(a.begin(), a.end(), l); std::sort(b.begin(), b.end(), l);
    return same(a, b);
}
inline long cutoff() { return verif_nondet_range("cutoff", 1, 6); }
struct Less { bool operator()(El const& a, El const& b) const { maybe_throw(); return a.k < b.k; } };
struct Greater { bool operator()(El const& a, El const& b) const { maybe_throw(); return a.k > b.k; } };
struct Equal { bool operator()(El const& a, El const& b) const { maybe_throw(); return a.k == b.k; } };
struct Odd { bool operator()(El const& a) const { maybe_throw(); return a.k % 2; } };
// an operation which is associative, but has no neutral element and does not commute: the ids in sequence
struct Str
{
    std::string s; bool none = true;
    Str() {}
    Str(std::string x) : s(std::move(x)), none(false) {}
    bool operator==(Str const& o) const { return none == o.none && s == o.s; }
};
inline Str str(El const& e) { return Str("<" + std::to_string(e.id) + ":" + std::to_string(e.k) + ">"); }
struct Cat { Str operator()(Str const& a, Str const& b) const { maybe_throw(); verif_assert(!a.none && !b.none, "post: T() is not part of the result"); return Str(a.s + b.s); } };
#define OK(c, m) verif_assert((c), m)
}
using namespace vb;
namespace ba = boost::asynchronous;
#endif
