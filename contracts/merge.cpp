// inc=merge   parallel_merge: stable merge of two sorted ranges
#include <vf_merge.hpp>
#include <boost/asynchronous/algorithm/parallel_merge.hpp>
using namespace vf;
namespace ba = boost::asynchronous;
bool vf::ix_eq(Ix const&, Ix const&) { return false; }
bool vf::ix_lt(Ix const&, Ix const&) { return false; }
static long parent_len;             // length of the input of the entry
// contract of the subtasks (the entries verify the real task against it): the stable merge of two parts
namespace boost { namespace asynchronous { namespace detail {
template <class I1, class I2, class O, class F, class J> bool vf_contract(parallel_merge_helper<I1,I2,O,F,J>& t)
{
    if (vf::depth == 0) return false;
    ++vf::splits;
    auto res = t.this_task_result();
    verif_assert(is_order(t.func_), "pre: merged with the given comparison");
    I1::same(t.beg1_, t.end1_); I2::same(t.beg2_, t.end2_);
    verif_assert((t.end1_ - t.beg1_) + (t.end2_ - t.beg2_) < parent_len, "progress: a subtask merges fewer elements");
    try { merge_(t.beg1_.s, t.beg1_.i, t.end1_.i, t.beg2_.s, t.beg2_.i, t.end2_.i, t.out_.i, t.func_); }
    catch (...) { res.set_exception(std::current_exception()); return true; }
    res.set_value();
    return true;
}
}}}
static void in(bool thr)
{
    n_in[0] = some_size("n1"); n_in[1] = some_size("n2"); n_out = parent_len = n_in[0] + n_in[1];
    if (thr) { contents = false; throws(); return; }
    C[0] = verif_nondet_range("cut of range 1", 0, n_in[0] + 1);
    C[1] = verif_nondet_range("cut of range 2", 0, n_in[1] + 1);
}
template <int S, int T> static auto run() { return ba::parallel_merge(mit_t<S>(0, 0), mit_t<S>(0, n_in[0]), mit_t<T>(1, 0), mit_t<T>(1, n_in[1]), oit(0), Less(), some_cutoff()); }
#ifndef MERGE_TYPES
ENTRY(merge) { in(false); ok(run<0, 0>()); merged(0, 0, n_in[0], 0, n_in[1]); }
ENTRY(merge_throw) { in(true); throwing(run<0, 0>()); }
#else
ENTRY(merge_types) { in(false); ok(run<0, 1>()); merged(0, 0, n_in[0], 0, n_in[1]); }
#endif
