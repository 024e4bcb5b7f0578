// Model of boost::condition_variable over pthreads.
#ifndef SYMX_MODEL_BOOST_CONDITION
#define SYMX_MODEL_BOOST_CONDITION
#include <boost/thread/lock_types.hpp>
#include <boost/thread/mutex.hpp>
#include <condition_variable>
#include <pthread.h>

namespace boost {
enum class cv_status { no_timeout, timeout };
class condition_variable_any {
    pthread_cond_t m_c;
    pthread_mutex_t m_m;

public:
    condition_variable_any()
    {
        pthread_cond_init(&m_c, nullptr);
        pthread_mutex_init(&m_m, nullptr);
    }
    ~condition_variable_any()
    {
        pthread_cond_destroy(&m_c);
        pthread_mutex_destroy(&m_m);
    }
    condition_variable_any(const condition_variable_any&) = delete;
    template <typename L>
    void wait(L& l)
    {
        pthread_mutex_lock(&m_m);
        l.unlock();
        pthread_cond_wait(&m_c, &m_m);
        pthread_mutex_unlock(&m_m);
        l.lock();
    }
    template <typename L, typename P>
    void wait(L& l, P p)
    {
        while (!p())
            wait(l);
    }
    // the time may or may not have passed when the condition comes true
    template <typename L, typename D>
    cv_status wait_for(L& l, const D&)
    {
        pthread_mutex_lock(&m_m);
        l.unlock();
        struct timespec ts = { 0, 0 };
        int r = pthread_cond_timedwait(&m_c, &m_m, &ts);
        pthread_mutex_unlock(&m_m);
        l.lock();
        return r ? cv_status::timeout : cv_status::no_timeout;
    }
    template <typename L, typename D, typename P>
    bool wait_for(L& l, const D& d, P p)
    {
        while (!p())
            if (wait_for(l, d) == cv_status::timeout)
                return p();
        return true;
    }
    template <typename L, typename D>
    cv_status wait_until(L& l, const D& d) { return wait_for(l, d); }
    template <typename L, typename D, typename P>
    bool wait_until(L& l, const D& d, P p) { return wait_for(l, d, p); }
    void notify_one() noexcept
    {
        pthread_mutex_lock(&m_m);
        pthread_cond_signal(&m_c);
        pthread_mutex_unlock(&m_m);
    }
    void notify_all() noexcept
    {
        pthread_mutex_lock(&m_m);
        pthread_cond_broadcast(&m_c);
        pthread_mutex_unlock(&m_m);
    }
};
typedef condition_variable_any condition_variable;
typedef condition_variable_any condition;
} // namespace boost
#endif
