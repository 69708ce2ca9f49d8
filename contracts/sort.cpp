// inc=sort   parallel_sort / stable_sort / sort_inplace / sort2, all overloads
#include <vf_reg.hpp>
#include <boost/asynchronous/algorithm/parallel_sort.hpp>
#include <boost/asynchronous/algorithm/parallel_sort_inplace.hpp>
#include <boost/asynchronous/algorithm/parallel_is_sorted.hpp>
using namespace vf;
// Modular contracts of the recursive tasks: below the first split they stand for the task, the entries
// step_* verify the real task against them.
static int sort_depth_min = 1;      // recursion depth of the first subtasks of the entry
// [a,b) of the range (s) sorted into sequence so, starting at o; the source is lost otherwise
static void sort_contract(int s, long a, long b, int so, long o)
{
    maybe_throw();
    if (!contents) { bounds(s, a, b); bounds(so, o, o + (b - a)); return; }
    Reg r = take(s, a, b);
    if (r.empty) return;
    verif_assert(r.st == RAW, "pre: a subtask sorts a part of the input");
    r.st = OK_;
    store(so, o, o + (b - a), r);
}
namespace boost { namespace asynchronous { namespace detail {
template <class It, class F, class J, class S> bool vf_contract(parallel_sort_fast_helper<It,F,J,S>& t)
{
    if (vf::depth == 0) return false;
    auto res = t.this_task_result();
    verif_assert((int)t.depth_ == sort_depth_min, "pre: the recursion depth of a subtask selects where its result goes");
    verif_assert(is_order(t.func_), "pre: sorted with the given comparison");
    It::same(t.beg_, t.end_);
    auto m = place(t.merge_beg_);
    verif_assert(place(t.merge_end_) - m == t.end_ - t.beg_, "pre: the merge memory of a subtask has its size");
    verif_assert(t.merge_beg_ == (decltype(t.merge_beg_))buf + t.beg_.i, "pre: the merge memory of a subtask is its own");
    verif_assert(t.merge_memory_ != nullptr, "pre: a subtask keeps the merge memory alive");
    bool odd = t.depth_ % 2 != 0;
    try { sort_contract(t.beg_.s, t.beg_.i, t.end_.i, odd ? m.s : t.beg_.s, odd ? m.i : t.beg_.i); }
    catch (...) { res.set_exception(std::current_exception()); return true; }
    res.set_value();
    return true;
}
template <class R, class F, class J, class S> bool vf_contract(parallel_sort_range_move_helper2<R,F,J,S>& t)
{
    if (vf::depth == 0) return false;
    auto res = t.this_task_result();
    verif_assert(t.depth_ > 0, "pre: a subtask is not a top-level sort");
    verif_assert(is_order(t.func_), "pre: sorted with the given comparison");
    verif_assert(t.range_ != nullptr, "pre: a subtask keeps the range alive");
    R out((unsigned long)(t.end_ - t.begin_));
    try { sort_contract(t.begin_.s, t.begin_.i, t.end_.i, out.s, 0); }
    catch (...) { res.set_exception(std::current_exception()); return true; }
    res.set_value(std::move(out));
    return true;
}
// contract of parallel_is_sorted (verified by contracts/red_pred.cpp)
template <class It, class F, class J> bool vf_contract(parallel_is_sorted_helper<It,F,J>& t)
{
    auto res = t.this_task_result();
    bool v;
    It::same(t.beg_, t.end_);
    try { v = is_sorted_(t.beg_.s, t.beg_.i, t.end_.i, t.func_); }
    catch (...) { res.set_exception(std::current_exception()); return true; }
    res.set_value(v);
    return true;
}
}}}
namespace ba = boost::asynchronous;
bool vf::ix_eq(Ix const&, Ix const&) { return false; }
bool vf::ix_lt(Ix const&, Ix const&) { return false; }
static rit I(long i) { return rit(0, i); }
static rit_t<TCell> T(long i) { return rit_t<TCell>(0, i); }
static auto moved = [](rng r) { verif_assert(r.n == N, "post: the sorted range is returned"); result(r.s); };
static void done() { result(0); verif_assert(built == cleared, "post: the elements of the merge memory are destroyed"); }
static void donet() { result(0); verif_assert(cleared == 0, "post: trivial elements need no destruction"); }
static void setup(bool stable) { input(stable); }
static void setupt() { contents = false; N = some_size("n"); slen[0] = N; throws(); }
ENTRY(sort) { setup(false); ok(ba::parallel_sort(I(0), I(N), Less(), some_cutoff())); done(); }
ENTRY(sort_trivial) { setup(false); ok(ba::parallel_sort(T(0), T(N), Less(), some_cutoff())); donet(); }
ENTRY(stable_sort) { setup(true); ok(ba::parallel_stable_sort(I(0), I(N), Less(), some_cutoff())); done(); }
ENTRY(sort_moved) { setup(false); ok(ba::parallel_sort(whole_range(), Less(), some_cutoff()), moved); }
ENTRY(stable_sort_moved) { setup(true); ok(ba::parallel_stable_sort(whole_range(), Less(), some_cutoff()), moved); }
ENTRY(sort_cont) { setup(false); ok(ba::parallel_sort(source(whole_range()), Less(), some_cutoff()), moved); }
ENTRY(stable_sort_cont) { setup(true); ok(ba::parallel_stable_sort(source(whole_range()), Less(), some_cutoff()), moved); }
ENTRY(sort2) { setup(false); ok(ba::parallel_sort2(whole_range(), Less(), some_cutoff()), moved); }
ENTRY(stable_sort2) { setup(true); ok(ba::parallel_stable_sort2(whole_range(), Less(), some_cutoff()), moved); }
ENTRY(sort2_cont) { setup(false); ok(ba::parallel_sort2(source(whole_range()), Less(), some_cutoff()), moved); }
ENTRY(inplace) { setup(false); ok(ba::parallel_sort_inplace(I(0), I(N), Less(), some_cutoff())); result(0); }
ENTRY(stable_inplace) { setup(true); ok(ba::parallel_stable_sort_inplace(I(0), I(N), Less(), some_cutoff())); result(0); }
ENTRY(sort_throw) { setupt(); throwing(ba::parallel_sort(I(0), I(N), Less(), some_cutoff())); verif_assert(built == cleared, "post: the elements of the merge memory are destroyed"); }

// one recursion step of the tasks, at depth d >= 1, on an arbitrary part [a,b) of the range
typedef BOOST_ASYNCHRONOUS_DEFAULT_JOB job_t;
typedef ba::placement_deleter<Cell,job_t> deleter_t;
template <class S> static void step(unsigned d, bool stable, bool thr = false)
{
    if (thr) { contents = false; N = some_size("n"); slen[0] = N; throws(); }
    else { N = some_size("n"); slen[0] = N; need_stable = stable;
      G = verif_nondet_long("G"); verif_assume(verif_and(0 <= G, G < N));
      REL = verif_choice(3, "relation of an arbitrary adjacent pair") - 1; }
    long a = verif_nondet_range("a", 0, N + 1), b = verif_nondet_range("b", 0, N + 1);
    verif_assume(a <= b);
    std::shared_ptr<char> mem(new char[N * (long)sizeof(Cell)], [](char* p) { delete[] p; });
    built = 1; buf = mem.get(); bufn = N; slen[1] = N;
    if (!thr)
    {
        put(0, 0, a, 0, a, GARB); put(0, a, b, a, b, RAW); put(0, b, N, b, N, GARB);
        put(1, 0, a, 0, a, OK_); put(1, b, N, b, N, OK_);
    }
    sort_depth_min = (int)d + 1;
    {
        auto del = std::make_shared<deleter_t>((std::size_t)N, mem, 100L, std::string(), (std::size_t)0);
        auto c = ba::top_level_callback_continuation_job<void,job_t>(ba::detail::parallel_sort_fast_helper<rit,Less,job_t,S>(
            I(a), I(b), d, del, (Cell*)buf + a, (Cell*)buf + b, Less(), some_cutoff(), "", 0));
        if (thr) throwing(std::move(c)); else ok(std::move(c));
    }
    verif_assert(cleared == 0, "post: a subtask does not release the merge memory");
    if (thr) return;
    Reg r = take(d % 2 ? 1 : 0, a, b, false);
    if (r.empty) verif_assert(a == b, "post: all elements are in the result");
    else
    {
        verif_assert(verif_and(r.oa == a, r.ob == b), "post: all elements are in the result");
        sorted_now(r, "post: the result is sorted");
    }
    // frame
    bool z = a == 0 || take(0, 0, a, false).st == GARB; verif_assert(z, "frame: nothing outside the part is touched");
    z = b == N || take(0, b, N, false).st == GARB; verif_assert(z, "frame: nothing outside the part is touched");
    z = a == 0 || take(1, 0, a, false).st == OK_; verif_assert(z, "frame: nothing outside the part is touched");
    z = b == N || take(1, b, N, false).st == OK_; verif_assert(z, "frame: nothing outside the part is touched");
}
ENTRY(step_1) { step<ba::std_sort>(1, false); }
ENTRY(step_2) { step<ba::std_sort>(2, false); }
ENTRY(step_stable_1) { step<ba::std_stable_sort>(1, true); }
ENTRY(step_stable_2) { step<ba::std_stable_sort>(2, true); }
ENTRY(step_1_throw) { step<ba::std_sort>(1, false, true); }
ENTRY(step_2_throw) { step<ba::std_sort>(2, false, true); }
template <class S> static void step2(bool stable, bool thr = false)
{
    if (thr) { contents = false; N = some_size("n"); slen[0] = N; throws(); }
    else { N = some_size("n"); slen[0] = N; need_stable = stable;
      G = verif_nondet_long("G"); verif_assume(verif_and(0 <= G, G < N));
      REL = verif_choice(3, "relation of an arbitrary adjacent pair") - 1; }
    long a = verif_nondet_range("a", 0, N + 1), b = verif_nondet_range("b", 0, N + 1);
    verif_assume(a <= b);
    if (!thr) { put(0, 0, a, 0, a, GARB); put(0, a, b, a, b, RAW); put(0, b, N, b, N, GARB); }
    auto r = std::make_shared<rng>(whole_range());
    auto c = ba::top_level_callback_continuation_job<rng,job_t>(ba::detail::parallel_sort_range_move_helper2<rng,Less,job_t,S>(
        r, I(a), I(b), Less(), 1u, some_cutoff(), "", 0));
    if (thr) { throwing(std::move(c)); return; }
    ok(std::move(c), [a, b](rng o)
    {
        verif_assert(o.n == b - a, "post: the sorted range is returned");
        if (a == b) return;
        Reg x = take(o.s, 0, o.n, false);
        verif_assert(verif_and(!x.empty, verif_and(x.oa == a, x.ob == b)), "post: all elements are in the result");
        sorted_now(x, "post: the result is sorted");
    });
    bool z = a == 0 || take(0, 0, a, false).st == GARB; verif_assert(z, "frame: nothing outside the part is touched");
    z = b == N || take(0, b, N, false).st == GARB; verif_assert(z, "frame: nothing outside the part is touched");
}
ENTRY(step_sort2) { step2<ba::std_sort>(false); }
ENTRY(step_stable_sort2) { step2<ba::std_stable_sort>(true); }
ENTRY(step_sort2_throw) { step2<ba::std_sort>(false, true); }
ENTRY(stable_sort_throw) { setupt(); throwing(ba::parallel_stable_sort(I(0), I(N), Less(), some_cutoff())); verif_assert(built == cleared, "post: the elements of the merge memory are destroyed"); }
ENTRY(sort2_throw) { setupt(); throwing(ba::parallel_sort2(whole_range(), Less(), some_cutoff())); }
ENTRY(sort_moved_throw) { setupt(); throwing(ba::parallel_sort(whole_range(), Less(), some_cutoff())); }
ENTRY(inplace_throw) { setupt(); throwing(ba::parallel_sort_inplace(I(0), I(N), Less(), some_cutoff())); }
