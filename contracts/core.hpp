// Helpers of the contracts on the core: a scheduler which fulfils the concept any_shared_scheduler_concept.
// Contract of post(): the job is executed exactly once, at any later moment, by another thread.
#pragma once
#include "../shadow/verif.hpp"
#include <list>
#include <boost/asynchronous/continuation_task.hpp>
#include <boost/asynchronous/any_scheduler.hpp>
#include <boost/asynchronous/scheduler/detail/lockable_weak_scheduler.hpp>
namespace ba = boost::asynchronous;
#define A(c, m) verif_assert((c), m)
namespace vc
{
struct boom { int id; };
template <class Job = ba::any_callable> struct sched : ba::any_shared_scheduler_concept<Job>
{
    typedef Job job_type;
    std::vector<Job> jobs;
    std::vector<std::size_t> prios;
    std::vector<ba::any_interruptible> ints;
    bool refuse = false;
    int subs_interrupted = 0;
    struct handle { int* n; void interrupt() { ++*n; } };
    void post(Job j) override { post(std::move(j), 0); }
    void post(Job j, std::size_t p) override { jobs.push_back(std::move(j)); prios.push_back(p); }
    ba::any_interruptible interruptible_post(Job j) override { return interruptible_post(std::move(j), 0); }
    ba::any_interruptible interruptible_post(Job j, std::size_t p) override { jobs.push_back(std::move(j)); prios.push_back(p); return ba::any_interruptible(handle{&subs_interrupted}); }
    std::vector<boost::thread::id> thread_ids() const override { return {}; }
    std::vector<std::size_t> get_queue_size() const override { return {}; }
    std::vector<std::size_t> get_max_queue_size() const override { return {}; }
    void reset_max_queue_size() override {}
    ba::scheduler_diagnostics get_diagnostics(std::size_t) const override { return ba::scheduler_diagnostics(); }
    void register_diagnostics_functor(std::function<void(ba::scheduler_diagnostics)>, ba::register_diagnostics_type) override {}
    void clear_diagnostics() override {}
    std::string get_name() const override { return ""; }
    void processor_bind(std::vector<std::tuple<unsigned, unsigned>>) override {}
    std::vector<std::future<void>> execute_in_all_threads(ba::any_callable) override { return {}; }
    void enable_queue(std::size_t, bool) override {}
    // execute job i on another thread
    std::vector<bool> ran;
    void run(std::size_t i)
    {
        Job j(std::move(jobs[i]));
        j();
    }
};
template <class Job = ba::any_callable> std::shared_ptr<sched<Job>> make()
{
    auto s = std::make_shared<sched<Job>>();
    s->jobs.reserve(8);
    ba::any_weak_scheduler<Job> w = ba::detail::lockable_weak_scheduler<sched<Job>>(s);
    ba::get_thread_scheduler<Job>(w, true);
    ba::get_continuations<>(std::list<ba::any_continuation>(), true);
    return s;
}
}
// the node operations of std::list are in the shared library: their definitions
namespace std { namespace __detail {
void _List_node_base::_M_hook(_List_node_base* const p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _M_next->_M_prev = _M_prev; _M_prev->_M_next = _M_next; }
void _List_node_base::_M_transfer(_List_node_base* const first, _List_node_base* const last) noexcept
{
    if (this == last) return;
    last->_M_prev->_M_next = this; first->_M_prev->_M_next = last; this->_M_prev->_M_next = first;
    _List_node_base* const t = this->_M_prev;
    this->_M_prev = last->_M_prev; last->_M_prev = first->_M_prev; first->_M_prev = t;
}
} }
