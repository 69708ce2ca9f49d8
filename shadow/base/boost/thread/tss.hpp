// Contract of boost::thread_specific_ptr seen from one thread: a slot owned by the current thread.
// A contract file can switch the current thread with vf_tss::thread (each thread has its own slot).
#ifndef VERIF_TSS_HPP
#define VERIF_TSS_HPP
#include <boost/thread/detail/config.hpp>
namespace vf_tss { inline int thread = 0; constexpr int max_threads = 4; }
namespace boost
{
template <typename T> class thread_specific_ptr
{
    thread_specific_ptr(thread_specific_ptr&) = delete;
    thread_specific_ptr& operator=(thread_specific_ptr&) = delete;
    mutable T* m_p[vf_tss::max_threads] = {};
    void (*m_cleanup)(T*) = nullptr;
    bool m_custom = false;
public:
    typedef T element_type;
    thread_specific_ptr() {}
    explicit thread_specific_ptr(void (*f)(T*)) : m_cleanup(f), m_custom(true) {}
    ~thread_specific_ptr() {}
    T* get() const { return m_p[vf_tss::thread]; }
    T* operator->() const { return get(); }
    T& operator*() const { return *get(); }
    T* release() { T* t = get(); m_p[vf_tss::thread] = nullptr; return t; }
    void reset(T* n = nullptr) { T* o = get(); if (o != n) { m_p[vf_tss::thread] = n; if (o) { if (!m_custom) delete o; else if (m_cleanup) m_cleanup(o); } } }
};
}
#endif
