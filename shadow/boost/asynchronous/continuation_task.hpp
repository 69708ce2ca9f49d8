// CONTRACT of boost/asynchronous/continuation_task.hpp and detail/continuation_impl.hpp, used when the
// algorithms are verified (callers are checked against this contract, not against the bodies; the real
// bodies are verified against the same contract by the property on the continuation core).
//
//  * a task is completed by exactly one of set_value / set_exception / throwing out of operator()
//  * create_callback_continuation_job(f, t1..tn): t1..tn are executed once each, all but the last at any
//    moment (before the last one, or after the creating task has returned), the last one inline;
//    after all completed, f is called once with the results in argument order
//  * top_level_callback_continuation_job(t..): same, f being given by on_done
//  * induction: below a split, find_cutoff answers "do not split" (a task on a strictly smaller range
//    satisfies the contract of its type, which the leaf behaviour of the same real code represents)
#ifndef BOOST_ASYNCHRONOUS_CONTINUATION_TASK_HPP
#define BOOST_ASYNCHRONOUS_CONTINUATION_TASK_HPP
#ifndef BOOST_ASYNCHRONOUS_CONTINUATION_IMPL_HPP
#define BOOST_ASYNCHRONOUS_CONTINUATION_IMPL_HPP
#endif
#include <string>
#include <sstream>
#include <functional>
#include <type_traits>
#include <exception>
#include <memory>
#include <tuple>
#include <vector>
#include <future>
#include <boost/mpl/has_xxx.hpp>
#include <boost/asynchronous/expected.hpp>
#include <boost/asynchronous/callable_any.hpp>
#include <boost/asynchronous/detail/metafunctions.hpp>
#include <verif.hpp>

namespace vf {
// ---- scheduler contract ------------------------------------------------------------------------
struct job { virtual void run() = 0; virtual ~job() {} job* next = nullptr; int depth = 0; int path = 0; };
inline job* pending = nullptr;        // posted, not yet executed
inline int depth = 0;                 // nesting below a split
inline int path = 0;                  // identity of the running leaf (for the data-race obligation)
inline int next_path = 1;
inline int exec_mode = -1;            // 0: posted jobs run at once, 1: after the poster returned
inline int splits = 0;                // number of splits
inline int epoch = 0;                 // number of joins completed so far
inline void post(job* j)
{
    job** p = &pending;
    while (*p) p = &(*p)->next;
    *p = j;
}
inline void run_one(job* j)
{
    int d = depth, pa = path;
    depth = j->depth; path = j->path;
    j->run();
    depth = d; path = pa;
    delete j;
}
inline void run_pending()
{
    while (pending)
    {
        job* j = pending;
        pending = j->next;
        run_one(j);
    }
}
inline int mode()
{
    if (exec_mode < 0) exec_mode = verif_choice(2, "schedule(0=posted task first,1=posted task last)");
    return exec_mode;
}
}

namespace boost { namespace asynchronous {
BOOST_MPL_HAS_XXX_TRAIT_DEF(state)
BOOST_MPL_HAS_XXX_TRAIT_DEF(iterator)
enum class continuation_post_policy { post_all_but_one, post_all };

namespace detail {
template <class R> struct vf_slot
{
    boost::asynchronous::expected<R> value;
    int done = 0;
    std::function<void()>* notify = nullptr;
    void set(boost::asynchronous::expected<R>&& e)
    {
        verif_assert(done == 0, "completion: a task completes at most once");
        ++done;
        value = std::move(e);
        if (notify) (*notify)();
    }
};
}
template <class Return> struct continuation_result
{
    typedef Return return_type;
    detail::vf_slot<Return>* m_slot;
    explicit continuation_result(detail::vf_slot<Return>* s = nullptr):m_slot(s){}
    continuation_result(continuation_result const& o) = default;
    continuation_result(continuation_result&& o) noexcept : m_slot(o.m_slot) { o.m_slot = nullptr; }
    continuation_result& operator=(continuation_result const& o) = default;
    continuation_result& operator=(continuation_result&& o) noexcept { std::swap(m_slot, o.m_slot); return *this; }
    detail::vf_slot<Return>* slot() const { verif_assert(m_slot != nullptr, "completion: the result of a task is reported (not through a moved-from result)"); return m_slot; }
    void set_value(Return val) const { slot()->set(boost::asynchronous::expected<Return>(std::move(val))); }
    void set_exception(std::exception_ptr p) const { slot()->set(boost::asynchronous::expected<Return>(p)); }
};
template <> struct continuation_result<void>
{
    typedef void return_type;
    detail::vf_slot<void>* m_slot;
    explicit continuation_result(detail::vf_slot<void>* s = nullptr):m_slot(s){}
    continuation_result(continuation_result const& o) = default;
    continuation_result(continuation_result&& o) noexcept : m_slot(o.m_slot) { o.m_slot = nullptr; }
    continuation_result& operator=(continuation_result const& o) = default;
    continuation_result& operator=(continuation_result&& o) noexcept { std::swap(m_slot, o.m_slot); return *this; }
    detail::vf_slot<void>* slot() const { verif_assert(m_slot != nullptr, "completion: the result of a task is reported (not through a moved-from result)"); return m_slot; }
    void set_value() const { slot()->set(boost::asynchronous::expected<void>()); }
    void set_exception(std::exception_ptr p) const { slot()->set(boost::asynchronous::expected<void>(p)); }
};
template <class Return> struct continuation_task
{
    typedef Return return_type;
    continuation_task(const std::string& = "") : vf_slot_(nullptr) {}
    std::string get_name() const { return std::string(); }
    boost::asynchronous::continuation_result<Return> this_task_result() const { return boost::asynchronous::continuation_result<Return>(vf_slot_); }
    void set_done_func(std::function<void(boost::asynchronous::expected<Return>)>) {}
    detail::vf_slot<Return>* vf_slot_;
};

namespace detail {
template <class F> struct is_future_h : std::false_type {};

// all subtasks of one continuation
template <class... R> struct vf_join
{
    std::tuple<vf_slot<R>...> slots;
    std::function<void(std::tuple<boost::asynchronous::expected<R>...>)> on_done;
    std::function<void()> notify;
    int left = sizeof...(R) + 1;
    int called = 0;
    template <std::size_t... I> void fire(std::index_sequence<I...>)
    {
        verif_assert(called == 0, "completion: the done-callback runs once");
        ++called; ++vf::epoch;
        bool threw = false;
        try { on_done(std::tuple<boost::asynchronous::expected<R>...>(std::move(std::get<I>(slots).value)...)); }
        catch (...) { threw = true; }
        verif_assert(!threw, "completion: no exception leaves a done-callback (it would be lost and the result never delivered)");
    }
    void one()
    {
        if (--left == 0) fire(std::index_sequence_for<R...>());
    }
};
template <class Task, class R> void vf_run_task(Task& t, vf_slot<R>& s, bool posted)
{
    t.vf_slot_ = &s;
    try
    {
        // modular step: a subtask may be replaced by its contract (which the contract file verifies separately)
        // (it returns whether it did; std::true_type: always, the body is not even instantiated)
        if constexpr (requires { vf_contract(t); })
        {
            if constexpr (std::is_same<decltype(vf_contract(t)), std::true_type>::value) vf_contract(t);
            else if (!vf_contract(t)) t();
        }
        else t();
    }
    catch (...)
    {
        // the scheduler swallows exceptions of posted jobs: the completion would be lost
        verif_assert(!posted, "completion: no exception leaves a posted subtask (it would be lost and the result never delivered)");
        // a task that throws before it completed is completed with the exception
        verif_assert(s.done == 0, "completion: no exception leaves a task that has completed");
        s.set(boost::asynchronous::expected<R>(std::current_exception()));
    }
}
template <class Task, class R> struct vf_task_job : vf::job
{
    Task t; vf_slot<R>* s;
    vf_task_job(Task&& x, vf_slot<R>* sl) : t(std::move(x)), s(sl) {}
    void run() override { vf_run_task(t, *s, true); }
};
template <class Task, class Enable = void> struct vf_start
{
    typedef typename std::decay<Task>::type T;
    typedef typename T::return_type R;
    static void start(Task&& t, vf_slot<R>& s, bool last, int depth)
    {
        if (last || vf::mode() == 0)
        {
            int d = vf::depth, pa = vf::path;
            vf::depth = depth;
            vf::path = vf::next_path++;
            T x(std::forward<Task>(t));
            vf_run_task(x, s, !last);
            vf::depth = d; vf::path = pa;
        }
        else
        {
            vf_task_job<T,R>* j = new vf_task_job<T,R>(T(std::forward<Task>(t)), &s);
            j->depth = depth; j->path = vf::next_path++;
            vf::post(j);
        }
    }
};
// a callback continuation as subtask
template <class Task> struct vf_start<Task, typename std::enable_if<boost::asynchronous::detail::has_is_callback_continuation_task<typename std::decay<Task>::type>::value>::type>
{
    typedef typename std::decay<Task>::type T;
    typedef typename T::return_type R;
    static void start(Task&& t, vf_slot<R>& s, bool, int)
    {
        vf_slot<R>* sp = &s;
        t.on_done([sp](std::tuple<boost::asynchronous::expected<R>> r){ sp->set(std::move(std::get<0>(r))); });
    }
};
template <class... Tasks> struct vf_join_of { typedef vf_join<typename std::decay<Tasks>::type::return_type...> type; };

template <class Join, std::size_t... I, class... Tasks>
void vf_start_all(Join* j, std::index_sequence<I...>, int depth, Tasks&&... tasks)
{
    j->notify = [j]() { j->one(); };
    ((std::get<I>(j->slots).notify = &j->notify), ...);
    (vf_start<Tasks>::start(std::forward<Tasks>(tasks), std::get<I>(j->slots), I + 1 == sizeof...(Tasks), depth), ...);
}

template <class Return, typename Job = BOOST_ASYNCHRONOUS_DEFAULT_JOB, typename Tuple = std::tuple<boost::asynchronous::expected<Return> >, typename Duration = long>
struct callback_continuation;
template <class Return, typename Job, typename... R, typename Duration>
struct callback_continuation<Return,Job,std::tuple<boost::asynchronous::expected<R>...>,Duration>
{
    typedef int is_continuation_task;
    typedef int is_callback_continuation_task;
    typedef Return return_type;
    typedef Job job_type;
    template <class T> struct continuation_args { typedef boost::asynchronous::expected<T> type; };
    typedef vf_join<R...> join_type;
    join_type* m_join = nullptr;
    callback_continuation() = default;
    template <class... Tasks> static callback_continuation make(int depth, Tasks&&... tasks)
    {
        callback_continuation c;
        c.m_join = new join_type();
        vf_start_all(c.m_join, std::index_sequence_for<Tasks...>(), depth, std::forward<Tasks>(tasks)...);
        return c;
    }
    std::string get_name() const { return std::string(); }
    void set_name(std::string const&) {}
    void operator()() {}
    template <class Func> void on_done(Func f)
    {
        m_join->on_done = std::move(f);
        m_join->one();
    }
};
template <typename... Args> std::tuple<boost::asynchronous::expected<typename Args::return_type>...> make_expected_tuple(Args&... )
{ return std::tuple<boost::asynchronous::expected<typename Args::return_type>...>(); }
}

template <typename Job, class OnDone, typename... Args>
void create_callback_continuation_job(OnDone on_done, Args&&... args)
{
    typedef typename detail::vf_join_of<Args...>::type join;
    join* j = new join();
    j->on_done = std::move(on_done);
    j->left = sizeof...(Args);
    detail::vf_start_all(j, std::index_sequence_for<Args...>(), vf::depth + 1, std::forward<Args>(args)...);
}
template <class OnDone, typename... Args>
void create_callback_continuation(OnDone on_done, Args&&... args)
{
    create_callback_continuation_job<BOOST_ASYNCHRONOUS_DEFAULT_JOB>(std::move(on_done), std::forward<Args>(args)...);
}
template <class Return, typename Job, class... Args>
detail::callback_continuation<Return,Job> top_level_callback_continuation_job(Args&&... args)
{
    return detail::callback_continuation<Return,Job>::make(vf::depth, std::forward<Args>(args)...);
}
// the future based continuation of a single task: same contract, the result is read from a future
namespace detail { template <class Return, typename Job = BOOST_ASYNCHRONOUS_DEFAULT_JOB> using continuation = callback_continuation<Return,Job>; }
template <class Return, typename Job, class FirstTask>
detail::callback_continuation<Return,Job> top_level_continuation_job(FirstTask&& t)
{
    return detail::callback_continuation<Return,Job>::make(vf::depth, std::forward<FirstTask>(t));
}
template <class Return, class FirstTask>
detail::callback_continuation<Return> top_level_callback_continuation(FirstTask&& t)
{
    return detail::callback_continuation<Return>::make(vf::depth, std::forward<FirstTask>(t));
}
// future based continuations are outside this contract: any_continuation only needs to exist for name lookup
struct any_continuation { template <class T> any_continuation(T&&) {} };
struct vf_continuations { template <class T> void emplace_front(T&&) {} template <class T> void push_front(T&&) {} };
inline vf_continuations& get_continuations() { static vf_continuations v; return v; }
}}
#endif
