// Model of boost::thread over pthreads. Timed joins wait for as long as it takes: a join that the
// real code would give up on shows up as a deadlock.
#ifndef SYMX_MODEL_BOOST_THREAD
#define SYMX_MODEL_BOOST_THREAD
#include <boost/asio.hpp>
#include <boost/chrono/duration.hpp>
#include <boost/thread/lock_guard.hpp>
#include <boost/thread/lock_types.hpp>
#include <boost/thread/locks.hpp>
#include <boost/thread/mutex.hpp>
#include <boost/thread/condition_variable.hpp>
#include <boost/thread/recursive_mutex.hpp>
#include <boost/thread/shared_mutex.hpp>
#include <functional>
#include <pthread.h>
#include <sched.h>
#include <unistd.h>

namespace boost {
class thread {
    struct data {
        std::function<void()> f;
        pthread_t t {};
        bool inl = false;
        bool joined = false;
    };
    std::shared_ptr<data> m_d;
    static void* start(void* p)
    {
        std::shared_ptr<data> d = *(std::shared_ptr<data>*)p;
        delete (std::shared_ptr<data>*)p;
        d->f();
        d->f = nullptr;
        return nullptr;
    }

public:
    class id {
    public:
        id() : v(0) {}
        explicit id(unsigned long x) : v(x) {}
        unsigned long v;
        bool operator==(const id& o) const { return v == o.v; }
        bool operator!=(const id& o) const { return v != o.v; }
        bool operator<(const id& o) const { return v < o.v; }
    };
    thread() noexcept {}
    template <typename F>
    explicit thread(F f)
    {
        m_d = std::make_shared<data>();
        m_d->f = std::function<void()>(std::move(f));
        if (symx_world::world().inlineThreads) {
            m_d->inl = true;
            return;
        }
        pthread_create(&m_d->t, nullptr, start, new std::shared_ptr<data>(m_d));
    }
    template <typename F, typename A, typename... B>
    explicit thread(F f, A a, B... b) : thread(std::function<void()>(std::bind(f, a, b...))) {}
    thread(const thread&) = delete;
    thread& operator=(const thread&) = delete;
    thread(thread&& o) noexcept { m_d.swap(o.m_d); }
    thread& operator=(thread&& o) noexcept
    {
        m_d = std::move(o.m_d);
        return *this;
    }
    ~thread() { detach(); }
    bool joinable() const { return m_d && !m_d->joined; }
    void detach() { m_d.reset(); }
    id get_id() const { return m_d ? id(m_d->inl ? 1000 : (unsigned long)m_d->t) : id(); }
    void join()
    {
        if (!joinable())
            throw boost::thread_resource_error(EINVAL, "boost thread: thread not joinable");
        if (m_d->inl) {
            std::function<void()> f;
            f.swap(m_d->f);
            if (f)
                f();
        } else {
            if (pthread_equal(m_d->t, pthread_self()))
                throw boost::thread_resource_error(EDEADLK, "boost thread: trying joining itself");
            pthread_join(m_d->t, nullptr);
        }
        m_d->joined = true;
        m_d.reset();
    }
    template <typename D>
    bool try_join_for(const D&)
    {
        join();
        return true;
    }
    template <typename D>
    bool try_join_until(const D&)
    {
        join();
        return true;
    }
    template <typename D>
    bool timed_join(const D&)
    {
        join();
        return true;
    }
    void interrupt() {}
    static unsigned hardware_concurrency() { return 1; }
};
namespace this_thread {
    inline thread::id get_id() { return thread::id((unsigned long)pthread_self()); }
    inline void yield() { sched_yield(); }
    inline void interruption_point() {}
    template <typename D>
    inline void sleep_for(const D&) { usleep(1); }
}
}
#endif
