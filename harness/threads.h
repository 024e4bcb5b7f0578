// Threads of the harness, over pthreads (whose calls both the explorer and the replayer schedule).
#pragma once
#include <functional>
#include <memory>
#include <pthread.h>
#include <vector>

namespace ref {
class Threads {
    struct T {
        pthread_t t;
        std::function<void()> f;
    };
    std::vector<std::unique_ptr<T>> m_t;
    static void* start(void* p)
    {
        ((T*)p)->f();
        return nullptr;
    }

public:
    void go(std::function<void()> f)
    {
        m_t.emplace_back(new T);
        m_t.back()->f = std::move(f);
        pthread_create(&m_t.back()->t, nullptr, start, m_t.back().get());
    }
    void join()
    {
        for (auto& t : m_t)
            pthread_join(t->t, nullptr);
        m_t.clear();
    }
};
}
