// CONTRACT of boost/asynchronous/algorithm/detail/safe_advance.hpp (the real functions are verified
// against it by contracts/cutoff.cpp):
//   find_cutoff(b,n,e): b <= e.  result == e, or b < result < e;  same arguments, same result
//   safe_advance(it,n,e): it = min(it+n, e)
#ifndef BOOST_ASYNCHRONOUS_SAFE_ADVANCE_HPP
#define BOOST_ASYNCHRONOUS_SAFE_ADVANCE_HPP
#include <iterator>
#include <type_traits>
#include <utility>
#include <boost/asynchronous/continuation_task.hpp>
namespace vf {
inline long idx_of(long i) { return i; }
inline long idx_of(unsigned long i) { return (long)i; }
inline long idx_of(int i) { return i; }
inline long idx_of(unsigned int i) { return i; }
inline void set_idx(long& i, long v) { i = v; }
inline void set_idx(unsigned long& i, long v) { i = (unsigned long)v; }
inline void set_idx(int& i, long v) { i = (int)v; }
inline void set_idx(unsigned int& i, long v) { i = (unsigned)v; }
// split positions chosen so far (same arguments, same answer)
struct cut { long b, n, e, r; };
inline cut cuts[32];
inline int ncuts = 0;
inline int shallow = 0;            // levels of splits less
// splits are explored down to this nesting
inline int max_depth() { return verif_depth() - shallow; }

inline long choose_cut(long b, long n, long e)
{
    verif_assert(b <= e, "find_cutoff: called with a valid range");
    for (int i = 0; i < ncuts; ++i)
        if (verif_must(verif_and(cuts[i].b == b, verif_and(cuts[i].n == n, cuts[i].e == e)))) return cuts[i].r;
    long r;
    if (depth >= max_depth()) r = e;
    else if (verif_choice(2, "split") == 0) { r = e; }
    else
    {
        r = verif_nondet_range("cut", b + 1, e);
        ++splits;
    }
    cuts[ncuts].b = b; cuts[ncuts].n = n; cuts[ncuts].e = e; cuts[ncuts].r = r; ++ncuts;
    return r;
}
}
namespace boost { namespace asynchronous { namespace detail {
template <typename Iterator, typename Distance>
void safe_advance(Iterator& it, Distance n, Iterator end)
{
    using vf::idx_of; using vf::set_idx;
    long i = idx_of(it), e = idx_of(end), d = n;
    set_idx(it, verif_ite(d < e - i, i + d, e));
}
template <class Iterator, class Distance>
Iterator find_cutoff(Iterator it, Distance n, Iterator end)
{
    using vf::idx_of; using vf::set_idx;
    long r = vf::choose_cut(idx_of(it), n, idx_of(end));
    Iterator x = it;
    set_idx(x, r);
    return x;
}
template <class It, class Distance>
std::pair<It,It> find_cutoff_and_prev(It it, Distance n, It end)
{
    using vf::idx_of; using vf::set_idx;
    long r = vf::choose_cut(idx_of(it), n, idx_of(end));
    It x = it, y = it;
    if (verif_must(r == idx_of(end))) { set_idx(x, r); set_idx(y, r); }
    else { set_idx(x, r - 1); set_idx(y, r); }
    return std::make_pair(x, y);
}
}}}
#endif
