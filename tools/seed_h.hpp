// small helpers of the demonstrations: run a continuation on a thread pool and wait for it
#include <boost/asynchronous/scheduler/single_thread_scheduler.hpp>
#include <boost/asynchronous/scheduler/threadpool_scheduler.hpp>
#include <boost/asynchronous/queue/lockfree_queue.hpp>
#include <boost/asynchronous/scheduler_shared_proxy.hpp>
#include <boost/asynchronous/continuation_task.hpp>
#include <boost/asynchronous/post.hpp>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <future>
#include <iostream>
#include <list>
#include <numeric>
#include <vector>
namespace ba = boost::asynchronous;
inline ba::any_shared_scheduler_proxy<> pool(int n)
{
    return ba::make_shared_scheduler_proxy<ba::threadpool_scheduler<ba::lockfree_queue<>>>(n);
}
#define FAIL(msg) do { std::cout << "FAIL: " << msg << std::endl; std::_Exit(1); } while (0)
template <class Fut> void wait(Fut& f, const char* what, int secs = 20)
{
    if (f.wait_for(std::chrono::seconds(secs)) != std::future_status::ready) FAIL(what << ": never completed");
}
inline void done() { std::cout << "ok" << std::endl; std::_Exit(0); }
