// Model of boost::shared_mutex: readers exclude each other too (fewer schedules, all of them real).
#ifndef SYMX_MODEL_BOOST_SHARED_MUTEX
#define SYMX_MODEL_BOOST_SHARED_MUTEX
#include <boost/thread/lock_types.hpp>
#include <boost/thread/mutex.hpp>

namespace boost {
class shared_mutex {
    mutex m_m;

public:
    void lock() { m_m.lock(); }
    bool try_lock() { return m_m.try_lock(); }
    void unlock() { m_m.unlock(); }
    void lock_shared() { m_m.lock(); }
    bool try_lock_shared() { return m_m.try_lock(); }
    void unlock_shared() { m_m.unlock(); }
};
typedef shared_mutex upgrade_mutex;
} // namespace boost
#endif
