// real:core
// Copying, moving and assigning tasks, task results and continuations: the copy delivers to the same
// receiver (done-callback or promise) as the original, and nothing to the one it had before.
#include "core.hpp"
using namespace vc;
namespace
{
typedef ba::expected<long> EL; typedef ba::expected<void> EV;
long v_; bool exc_;
int calls_[4]; bool good_[4];
void check(EL& e, int k)
{
    ++calls_[k]; long g = 0; int id = -1;
    try { g = e.get(); } catch (boom& b) { id = b.id; }
    good_[k] = exc_ ? id == 3 : (id < 0 && g == v_);
}
void check(EV& e, int k)
{
    ++calls_[k]; int id = -1;
    try { e.get(); } catch (boom& b) { id = b.id; }
    good_[k] = exc_ ? id == 3 : id < 0;
}
template <class T> std::function<void(ba::expected<T>)> cb(int k) { return [k](ba::expected<T> e) { check(e, k); }; }
void complete(ba::continuation_result<long> const& r) { if (exc_) r.set_exception(std::make_exception_ptr(boom{3})); else r.set_value(v_); }
void complete(ba::continuation_result<void> const& r) { if (exc_) r.set_exception(std::make_exception_ptr(boom{3})); else r.set_value(); }
bool fine(std::future<long>& f) { long g = 0; int id = -1; if (!ba::is_ready(f)) return false; try { g = f.get(); } catch (boom& b) { id = b.id; } return exc_ ? id == 3 : (id < 0 && g == v_); }
bool fine(std::future<void>& f) { int id = -1; if (!ba::is_ready(f)) return false; try { f.get(); } catch (boom& b) { id = b.id; } return exc_ ? id == 3 : id < 0; }
enum { COPY, MOVE, COPY_ASSIGN, MOVE_ASSIGN };
void vals() { v_ = verif_nondet_long("value"); exc_ = verif_nondet_bool("exception"); }
// the receiver of the original: 0 = its done-callback, 1 = its promise; the one of the assigned object is cb 1
template <class T> void task_()
{
    vals();
    int how = verif_choice(4, "how(0 copy,1 move,2 copy assignment,3 move assignment)");
    bool promise = verif_nondet_bool("the result goes to the promise");
    ba::continuation_task<T> t("t");
    std::future<T> f;
    if (promise) f = t.get_future(); else t.set_done_func(cb<T>(0));
    ba::continuation_task<T> u("old");
    if (verif_nondet_bool("the assigned task had a callback")) u.set_done_func(cb<T>(1));
    ba::continuation_task<T> w(how == COPY ? ba::continuation_task<T>(t) : how == MOVE ? ba::continuation_task<T>(std::move(t)) : ba::continuation_task<T>(u));
    if (how == COPY_ASSIGN) w = t; else if (how == MOVE_ASSIGN) w = std::move(t);
    A(w.get_name() == "t", "copy: a copied or moved task keeps its name");
    bool orig = how == COPY || how == COPY_ASSIGN;
    if (orig) A(t.get_name() == "t", "copy: the original keeps its name");
    bool from_original = orig && verif_nondet_bool("complete the original");
    if (promise) A(w.get_promise() && (!orig || w.get_promise() == t.get_promise()), "copy: promise shared");
    complete(from_original ? t.this_task_result() : w.this_task_result());
    A(calls_[1] == 0, "copy: nothing goes to the receiver of the overwritten task");
    if (promise) A(fine(f), "copy: result delivered through the promise of the original");
    else A(calls_[0] == 1 && good_[0], "copy: result delivered to the done-callback of the original, once");
    verif_cover("end");
}
template <class T> void result_()
{
    vals();
    int how = verif_choice(4, "how(0 copy,1 move,2 copy assignment,3 move assignment)");
    bool promise = verif_nondet_bool("the result goes to the promise");
    auto p = std::make_shared<std::promise<T>>(); auto p2 = std::make_shared<std::promise<T>>();
    auto f = p->get_future();
    typedef ba::continuation_result<T> R;
    R t(p, promise ? std::function<void(ba::expected<T>)>() : cb<T>(0));
    R u(p2, verif_nondet_bool("the assigned one had a callback") ? cb<T>(1) : std::function<void(ba::expected<T>)>());
    R w(how == COPY ? R(t) : how == MOVE ? R(std::move(t)) : R(u));
    if (how == COPY_ASSIGN) w = t; else if (how == MOVE_ASSIGN) w = std::move(t);
    bool from_original = (how == COPY || how == COPY_ASSIGN) && verif_nondet_bool("complete the original");
    complete(from_original ? t : w);
    A(calls_[1] == 0, "copy: nothing goes to the receiver of the overwritten result");
    if (promise) A(fine(f) && calls_[0] == 0, "copy: result delivered through the promise of the original");
    else A(calls_[0] == 1 && good_[0] && !ba::is_ready(f), "copy: result delivered to the done-callback of the original, once");
    verif_cover("end");
}
}
extern "C" void check_copy_task() { task_<long>(); }
extern "C" void check_copy_task_void() { task_<void>(); }
extern "C" void check_copy_result() { result_<long>(); }
extern "C" void check_copy_result_void() { result_<void>(); }
// continuations: a copied or moved continuation forwards to the callback set through it (or before)
namespace
{
struct task : ba::continuation_task<long>
{
    task() : ba::continuation_task<long>("t") {}
    void operator()() { complete(this->this_task_result()); }
};
// a task which completes at the end of the test
std::shared_ptr<ba::continuation_result<long>> pending;
struct late : ba::continuation_task<long>
{
    late() : ba::continuation_task<long>("t") {}
    void operator()() { pending = std::make_shared<ba::continuation_result<long>>(this->this_task_result()); }
};
template <class C, class F> void cont_(C c, F done)
{
    int how = verif_choice(4, "how(0 copy,1 move,2 copy assignment,3 move assignment)");
    bool before = verif_nondet_bool("the callback is set before");
    if (before) c.on_done(done);
    C e;
    C w(how == COPY ? C(c) : how == MOVE ? C(std::move(c)) : C(e));
    if (how == COPY_ASSIGN) w = c; else if (how == MOVE_ASSIGN) w = std::move(c);
    if (!before) w.on_done(done);
    A(calls_[0] == 0, "copy: no done-callback before the subtasks are done");
    if (pending) { complete(*pending); }
    A(calls_[0] == 1 && good_[0], "copy: the done-callback is called once with the result");
    verif_cover("end");
}
template <class C, class F> void fcont_(C& c, F done, std::promise<long>& p, std::promise<long>& q)
{
    int how = verif_choice(4, "how(0 copy,1 move,2 copy assignment,3 move assignment)");
    bool before = verif_nondet_bool("the callback is set before");
    if (before) c.on_done(done);
    bool first = verif_nondet_bool("one future is ready before");
    if (first) { p.set_value(1); A(!c.is_ready(), "copy: not ready before all futures are"); }
    C e;
    C w(how == COPY ? C(c) : how == MOVE ? C(std::move(c)) : C(std::move(e)));
    if (how == COPY_ASSIGN) w = c; else if (how == MOVE_ASSIGN) w = std::move(c);
    if (!before) w.on_done(done);
    A(!w.is_ready(), "copy: not ready before all futures are");
    if (!first) { p.set_value(1); A(!w.is_ready(), "copy: not ready before all futures are"); }
    q.set_value(v_);
    A(w.is_ready(), "copy: ready when all futures are");
    A(calls_[0] == 0, "copy: the done-callback is called by the worker");
    w();
    A(calls_[0] == 1 && good_[0], "copy: the done-callback gets the futures in their positions");
    verif_cover("end");
}
std::shared_ptr<sched<>> S;
}
extern "C" void check_copy_callback_continuation()
{
    vals(); S = make<>();
    cont_(ba::top_level_callback_continuation<long>(late()), [](std::tuple<EL>&& r) { check(std::get<0>(r), 0); });
}
extern "C" void check_copy_callback_continuation_seq()
{
    vals(); S = make<>();
    std::vector<late> v(1);
    typedef ba::detail::callback_continuation_as_seq<long> C;
    C* c = new C(std::shared_ptr<ba::detail::interrupt_state>(), std::chrono::milliseconds(0),
        [](std::vector<EL> r) { A(r.size() == 1, "copy: one result per subtask"); check(r[0], 0); }, std::move(v));
    int how = verif_choice(4, "how(0 copy,1 move,2 copy assignment,3 move assignment)");
    C e;
    C w(how == COPY ? C(*c) : how == MOVE ? C(std::move(*c)) : C(e));
    if (how == COPY_ASSIGN) w = *c; else if (how == MOVE_ASSIGN) w = std::move(*c);
    delete c;
    A(calls_[0] == 0, "copy: no done-callback before the subtasks are done");
    w();
    complete(*pending);
    A(calls_[0] == 1 && good_[0], "copy: the done-callback is called once with the result");
    verif_cover("end");
}
typedef std::future<long> FL;
extern "C" void check_copy_continuation()
{
    vals(); exc_ = false; S = make<>();
    std::promise<long> p, q;
    ba::detail::continuation<long, ba::any_callable, std::tuple<FL, FL>> c(std::shared_ptr<ba::detail::interrupt_state>(), std::make_tuple(p.get_future(), q.get_future()), std::chrono::milliseconds(0));
    fcont_(c, [](std::tuple<FL, FL>&& t) { ++calls_[0]; good_[0] = std::get<0>(t).get() == 1 && std::get<1>(t).get() == v_; }, p, q);
}
extern "C" void check_copy_continuation_seq()
{
    vals(); exc_ = false; S = make<>();
    std::promise<long> p, q;
    std::vector<FL> s; s.push_back(p.get_future()); s.push_back(q.get_future());
    ba::detail::continuation_as_seq<long, ba::any_callable, std::vector<FL>> c(std::shared_ptr<ba::detail::interrupt_state>(), std::chrono::milliseconds(0), std::move(s));
    fcont_(c, [](std::vector<FL>&& t) { ++calls_[0]; good_[0] = t.size() == 2 && t[0].get() == 1 && t[1].get() == v_; }, p, q);
}
