// inc=part   parallel_quicksort / nth_element / partial_sort, over the contracts of partition, sort, is_sorted, reverse
#include <vf_part.hpp>
#include <cmath>
#ifndef MEDIAN
// contract of median_of_medians (verified by median.cpp): one of the elements of the range, which is not empty
namespace boost { namespace asynchronous { namespace detail {
template <class F> vf::E median_of_medians(vf::pit b, vf::pit e, F&)
{
    verif_assert(b.i < e.i, "pre: the median of a range which is not empty");
    vf::maybe_throw();
    return vf::element(verif_nondet_range("median", b.i, e.i));
}
}}}
#endif
namespace boost { struct thread { static unsigned hardware_concurrency() { return (unsigned)verif_nondet_range("hardware_concurrency", 0, 1L << 20); } }; }
#include <boost/asynchronous/algorithm/parallel_quicksort.hpp>
#include <boost/asynchronous/algorithm/parallel_nth_element.hpp>
#include <boost/asynchronous/algorithm/parallel_partial_sort.hpp>
using namespace vf;
namespace ba = boost::asynchronous;
bool vf::ix_eq(Ix const&, Ix const&) { return false; }
bool vf::ix_lt(Ix const&, Ix const&) { return false; }
#ifdef MEDIAN
ENTRY(median)
{
    contents = false; N = some_size("n"); verif_assume(N >= 1);
    Less f; E m = ba::detail::median_of_medians(pit(0), pit(N), f);
    verif_assert(verif_and(0 <= m.i, m.i < N), "post: the median is one of the elements");
}
#else
typedef BOOST_ASYNCHRONOUS_DEFAULT_JOB job_t;
static int started = 0;             // the recursive task under verification has been entered
static long parent_size, parent_sum;
static pit P(long i) { return pit(i); }
template <class R, class F> static bool by(R const& res, F f)
{
    try { f(); } catch (...) { res.set_exception(std::current_exception()); return true; }
    res.set_value();
    return true;
}
namespace boost { namespace asynchronous { namespace detail {
// contracts of the algorithms used (verified by red_pred.cpp, ew_misc.cpp, sort.cpp, partition.cpp)
template <class It, class F, class J> std::true_type vf_contract(parallel_is_sorted_helper<It,F,J>& t)
{
    auto res = t.this_task_result(); bool v;
    try { v = is_sorted_(t.beg_.i, t.end_.i, t.func_); } catch (...) { res.set_exception(std::current_exception()); return {}; }
    res.set_value(v);
    return {};
}
template <class It, class F, class J, class S> std::true_type vf_contract(parallel_sort_fast_helper<It,F,J,S>& t)
{
    verif_assert(t.depth_ == 0, "pre: a top-level sort");
    by(t.this_task_result(), [&] { sort_(t.beg_.i, t.end_.i, t.func_); });
    return {};
}
template <class It, class F, class J> std::true_type vf_contract(parallel_partition_helper<It,F,J>& t)
{
    ++vf::splits;
    auto res = t.this_task_result(); long r;
    try { r = partition_(t.m_sd->m_left.i, t.m_sd->m_right.i, t.m_rel); } catch (...) { res.set_exception(std::current_exception()); return {}; }
    res.set_value(It(r));
    return {};
}
template <class It, class J> std::true_type vf_contract(parallel_reverse_helper<It,J>& t)
{
    verif_assert(t.beg_ == t.beg_reverse_ && t.end_reverse_ - t.beg_ == (t.end_ - t.beg_) / 2, "pre: a top-level reverse");
    by(t.this_task_result(), [&] { reverse_(t.beg_.i, t.end_.i); });
    return {};
}
// the recursive tasks: the first one is executed, nested ones are replaced by their contract
template <class It, class F, class J, class S> bool vf_contract(parallel_quicksort_helper<It,F,J,S>& t)
{
    if (!started) { started = 1; return false; }
    verif_assert(verif_or(t.end_ - t.beg_ < parent_size, t.size_all_partitions_ > parent_sum), "progress: a nested task has less to do, or comes closer to the limit");
    verif_assert(t.original_size_ <= (std::size_t)N, "progress: the limit is not moved");
    return by(t.this_task_result(), [&] { sort_(t.beg_.i, t.end_.i, t.func_); });
}
template <class It, class F, class J> bool vf_contract(parallel_nth_element_helper<It,F,J>& t)
{
    if (!started) { started = 1; return false; }
    verif_assert(t.size_all_partitions_ > parent_sum, "progress: a nested task comes closer to the limit");
    verif_assert(t.original_size_ <= (std::size_t)N, "progress: the limit is not moved");
    return by(t.this_task_result(), [&] { nth_(t.beg_.i, t.nth_.i, t.end_.i, t.func_); });
}
template <class It, class F, class J> bool vf_contract(parallel_partial_sort_helper<It,F,J>& t)
{
    if (!started) { started = 1; return false; }
    verif_assert(t.size_all_partitions_ > parent_sum, "progress: a nested task comes closer to the limit");
    verif_assert(t.original_size_ <= (std::size_t)N, "progress: the limit is not moved");
    return by(t.this_task_result(), [&] { partial_(t.beg_.i, t.middle_.i, t.end_.i, t.func_); });
}
}}}
#define TOP(...) ba::top_level_callback_continuation_job<void,job_t>(__VA_ARGS__)
static void sums() { parent_size = N; parent_sum = verif_nondet_range("sum of the sizes so far", 0, 1L << 60); }
// the public functions
ENTRY(quicksort) { input(false); parent_size = N; parent_sum = 0; ok(ba::parallel_quicksort(P(0), P(N), Less(), some_cutoff(), 4)); is_ordered(0, N, "post: the range is sorted"); }
ENTRY(nth_element) { input(false); parent_sum = 0; long n = verif_nondet_range("nth", 0, N + 1); ok(ba::parallel_nth_element(P(0), P(n), P(N), Less(), some_cutoff(), 4));
    if (n < N) { is_split(0, n, N, "post: no element before the nth is greater"); is_split(0, n + 1, N, "post: no element after the nth is less"); } }
ENTRY(partial_sort) { input(false); parent_sum = 0; long m = verif_nondet_range("middle", 0, N + 1); ok(ba::parallel_partial_sort(P(0), P(m), P(N), Less(), some_cutoff(), 4));
    is_ordered(0, m, "post: the first part is sorted"); is_split(0, m, N, "post: no element of the rest is less"); }
// one step of the recursive tasks
ENTRY(quicksort_step) { input(false); sums(); ok(TOP(ba::detail::parallel_quicksort_helper<pit,Less,job_t,ba::std_sort>(P(0), P(N), Less(), 4, parent_sum, (std::size_t)N, some_cutoff(), "", 0)));
    is_ordered(0, N, "post: the range is sorted"); }
ENTRY(nth_element_step) { input(false); sums(); long n = verif_nondet_range("nth", 0, N + 1);
    ok(TOP(ba::detail::parallel_nth_element_helper<pit,Less,job_t>(P(0), P(N), P(n), Less(), parent_sum, (std::size_t)N, some_cutoff(), 4, "", 0)));
    if (n < N) { is_split(0, n, N, "post: no element before the nth is greater"); is_split(0, n + 1, N, "post: no element after the nth is less"); } }
ENTRY(partial_sort_step) { input(false); sums(); long m = verif_nondet_range("middle", 0, N + 1);
    ok(TOP(ba::detail::parallel_partial_sort_helper<pit,Less,job_t>(P(0), P(N), P(m), Less(), parent_sum, (std::size_t)N, some_cutoff(), 4, "", 0)));
    is_ordered(0, m, "post: the first part is sorted"); is_split(0, m, N, "post: no element of the rest is less"); }
ENTRY(quicksort_throw) { input(true); parent_size = N; throwing(ba::parallel_quicksort(P(0), P(N), Less(), some_cutoff(), 4)); }
ENTRY(nth_element_throw) { input(true); long n = verif_nondet_range("nth", 0, N + 1); throwing(ba::parallel_nth_element(P(0), P(n), P(N), Less(), some_cutoff(), 4)); }
ENTRY(partial_sort_throw) { input(true); long n = verif_nondet_range("middle", 0, N + 1); throwing(ba::parallel_partial_sort(P(0), P(n), P(N), Less(), some_cutoff(), 4)); }
#endif
