// Model of the part of Boost.Asio that dbus-asio uses: one io_context, UNIX stream sockets.
// The peer, the amounts moved by each system call and the completion order are chosen by the
// harness or explored exhaustively. Works symbolically and natively.
#ifndef SYMX_MODEL_ASIO
#define SYMX_MODEL_ASIO
#include <atomic>
#include <boost/system/error_code.hpp>
#include <boost/system/system_error.hpp>
#include <algorithm>
#include <array>
#include <cerrno>
#include <chrono>
#include <cstddef>
#include <cstdlib>
#include <cstring>
#include <iostream>
#include <limits>
#include <list>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <unordered_map>
#include <utility>
#include <cstdint>
#include <deque>
#include <functional>
#include <memory>
#include <mutex>
#include <pthread.h>
#include <string>
#include <sys/un.h>
#include <vector>

#include "symx.h"

namespace boost {
namespace asio {
    class io_context;
    namespace error {
        enum basic_errors { access_denied = EACCES,
            bad_descriptor = EBADF,
            broken_pipe = EPIPE,
            connection_aborted = ECONNABORTED,
            connection_refused = ECONNREFUSED,
            connection_reset = ECONNRESET,
            not_connected = ENOTCONN,
            operation_aborted = ECANCELED,
            name_too_long = ENAMETOOLONG,
            timed_out = ETIMEDOUT,
            would_block = EWOULDBLOCK };
        enum misc_errors { already_open = 1,
            eof,
            not_found,
            fd_set_failure };
        struct misc_cat : boost::system::error_category {
            const char* name() const noexcept override { return "asio.misc"; }
            std::string message(int v) const override { return v == eof ? "End of file" : "asio.misc error"; }
        };
        inline const boost::system::error_category& get_misc_category()
        {
            static misc_cat c;
            return c;
        }
        inline const boost::system::error_category& get_system_category() { return boost::system::system_category(); }
        static const boost::system::error_category& misc_category = get_misc_category();
        static const boost::system::error_category& system_category = get_system_category();
        inline boost::system::error_code make_error_code(basic_errors e) { return boost::system::error_code((int)e, get_system_category()); }
        inline boost::system::error_code make_error_code(misc_errors e) { return boost::system::error_code((int)e, get_misc_category()); }
    }
}
namespace system {
    template <>
    struct is_error_code_enum<asio::error::basic_errors> {
        static const bool value = true;
    };
    template <>
    struct is_error_code_enum<asio::error::misc_errors> {
        static const bool value = true;
    };
}
namespace asio {
    struct mutable_buffer {
        void* p;
        size_t n;
        void* data() const { return p; }
        size_t size() const { return n; }
    };
    struct const_buffer {
        const void* p;
        size_t n;
        const_buffer(const void* d, size_t s) : p(d), n(s) {}
        const_buffer(const mutable_buffer& m) : p(m.p), n(m.n) {}
        const void* data() const { return p; }
        size_t size() const { return n; }
    };
    typedef const_buffer const_buffers_1;
    typedef mutable_buffer mutable_buffers_1;
    inline mutable_buffer buffer(void* p, size_t n) { return mutable_buffer { p, n }; }
    inline const_buffer buffer(const void* p, size_t n) { return const_buffer { p, n }; }
    inline mutable_buffer buffer(std::string& s) { return mutable_buffer { &s[0], s.size() }; }
    inline const_buffer buffer(const std::string& s) { return const_buffer { s.data(), s.size() }; }
    inline mutable_buffer buffer(std::string& s, size_t m) { return mutable_buffer { &s[0], s.size() < m ? s.size() : m }; }
    inline const_buffer buffer(const std::string& s, size_t m) { return const_buffer { s.data(), s.size() < m ? s.size() : m }; }
    template <typename T>
    inline mutable_buffer buffer(std::vector<T>& v) { return mutable_buffer { v.data(), v.size() * sizeof(T) }; }
    template <typename T>
    inline const_buffer buffer(const std::vector<T>& v) { return const_buffer { v.data(), v.size() * sizeof(T) }; }
    template <typename T, size_t N>
    inline mutable_buffer buffer(T (&a)[N]) { return mutable_buffer { a, sizeof a }; }
    template <typename T, size_t N>
    inline mutable_buffer buffer(T (&a)[N], size_t m) { return mutable_buffer { a, m < sizeof a ? m : sizeof a }; }
}
}

// ------------------------------------------------------------------ the world outside the process

namespace symx_world {
typedef std::function<void(const boost::system::error_code&, size_t)> Handler;

struct World {
    pthread_mutex_t mx = PTHREAD_MUTEX_INITIALIZER;
    pthread_cond_t cv = PTHREAD_COND_INITIALIZER;
    // what the peer has sent us and we have not read yet
    std::string in;
    size_t inPos = 0;
    bool peerClosed = false; // end of file after `in`
    int readError = 0; // errno delivered after `in`
    // what the peer has received from us
    std::string wire;
    int writeError = 0; // errno for writes from now on
    // how often a write may move fewer bytes than asked (0 bytes: would block), and a read fewer than available
    int partialWrites = 0;
    bool writeBlocks = true; // a partial write may also move nothing at first
    int partialReads = 0;
    std::vector<size_t> readSizes; // forced sizes of the next reads, if not empty
    bool lazyReads = false; // reads deliver nothing until allowRead is raised
    int allowReads = 1 << 30;
    bool connectFails = false;
    std::string connectedTo;
    bool connected = false;
    bool shutRead = false, shutWrite = false; // shutdown() was called
    bool closed = false;
    bool stuck = false; // the peer does not read, and the socket's buffer is full
    // asio's reactor is edge-triggered: after a write that failed or was short, the next asynchronous one waits
    // for an event, which comes when the buffer drains and when the state of the connection changes
    bool tryWrites = true, waitsForWrites = false, writeEvent = false;
    // misuse counters
    int overlappingReads = 0;
    int overlappingWrites = 0;
    unsigned writes = 0;
    // calls made by the code under test
    std::function<void(World&)> onWire; // called (unlocked) after bytes reached the peer
    // threads are run inline by pump() and join() instead of being created
    bool inlineThreads = false;
    boost::asio::io_context* ctx = nullptr;
    // waits until the peer has received that much
    void awaitWire(size_t n)
    {
        pthread_mutex_lock(&mx);
        while (wire.size() < n)
            pthread_cond_wait(&cv, &mx);
        pthread_mutex_unlock(&mx);
    }
    // what the peer has received so far
    std::string received()
    {
        pthread_mutex_lock(&mx);
        std::string s = wire;
        pthread_mutex_unlock(&mx);
        return s;
    }
    void writesFail(int error)
    {
        pthread_mutex_lock(&mx);
        writeError = error;
        writeEvent = true;
        pthread_cond_broadcast(&cv);
        pthread_mutex_unlock(&mx);
    }
    void peerStopsReading()
    {
        pthread_mutex_lock(&mx);
        stuck = true;
        pthread_mutex_unlock(&mx);
    }
    void peerReads()
    {
        pthread_mutex_lock(&mx);
        stuck = false;
        writeEvent = true;
        pthread_cond_broadcast(&cv);
        pthread_mutex_unlock(&mx);
    }
    void awaitIdle(); // waits until the I/O thread has nothing left to do
    unsigned pump(); // runs ready completions until none is left; returns how many ran
    void peerSends(const std::string& s)
    {
        pthread_mutex_lock(&mx);
        in += s;
        pthread_cond_broadcast(&cv);
        pthread_mutex_unlock(&mx);
    }
    void peerFails(int error)
    {
        pthread_mutex_lock(&mx);
        readError = error;
        writeEvent = true;
        pthread_cond_broadcast(&cv);
        pthread_mutex_unlock(&mx);
    }
    void partial(int writesToo, int readsToo)
    {
        pthread_mutex_lock(&mx);
        partialWrites += writesToo;
        partialReads += readsToo;
        pthread_mutex_unlock(&mx);
    }
    void peerCloses()
    {
        pthread_mutex_lock(&mx);
        peerClosed = true;
        writeEvent = true;
        pthread_cond_broadcast(&cv);
        pthread_mutex_unlock(&mx);
    }
};
inline World& world()
{
    static World* w = new World();
    return *w;
}
struct Lock {
    Lock() { pthread_mutex_lock(&world().mx); }
    ~Lock() { pthread_mutex_unlock(&world().mx); }
};

struct Op {
    int kind; // 0 read_some, 1 write_some, 2 posted function
    int sock;
    void* rp;
    const char* wp;
    size_t n;
    Handler h;
    std::function<void()> f;
    boost::system::error_code ec;
    size_t done;
};
typedef std::shared_ptr<Op> OpP;
}

namespace boost {
namespace asio {
    class io_context {
    public:
        typedef io_context executor_type;
        explicit io_context(int = 0) { symx_world::world().ctx = this; }
        io_context(const io_context&) = delete;
        ~io_context()
        {
            if (symx_world::world().ctx == this)
                symx_world::world().ctx = nullptr;
        }
        executor_type& get_executor() { return *this; }
        struct work_t {
        };
        size_t run() { return runLoop(true); }
        size_t poll() { return runLoop(false); }
        size_t run_one() { return step(true) ? 1 : 0; }
        size_t poll_one() { return step(false) ? 1 : 0; }
        void stop()
        {
            symx_world::Lock l;
            m_stopped = true;
            pthread_cond_broadcast(&symx_world::world().cv);
        }
        bool stopped() const { return m_stopped; }
        void restart() { m_stopped = false; }
        void reset() { m_stopped = false; }
        template <typename F>
        void post(F f)
        {
            auto p = std::make_shared<F>(std::move(f));
            auto op = std::make_shared<symx_world::Op>();
            op->kind = 2;
            op->f = [p] { (*p)(); };
            symx_world::Lock l;
            m_ready.push_back(op);
            pthread_cond_broadcast(&symx_world::world().cv);
        }
        template <typename F>
        void dispatch(F f) { post(std::move(f)); }

        // ---- model internals (world lock held)
        std::deque<symx_world::OpP> m_ready; // completed operations and posted functions
        std::deque<symx_world::OpP> m_reads, m_writes; // waiting for the socket
        bool m_stopped = false;
        bool m_waiting = false; // a thread waits for something to do

        bool readable()
        {
            symx_world::World& w = symx_world::world();
            return (w.inPos < w.in.size() && w.allowReads > 0) || ((w.inPos >= w.in.size()) && (w.peerClosed || w.readError || w.shutRead || w.closed));
        }
        bool writable()
        {
            symx_world::World& w = symx_world::world();
            return !w.stuck || w.shutWrite || w.closed || w.writeError || w.peerClosed;
        }
        void doRead(symx_world::OpP op)
        {
            read(*op);
            m_ready.push_back(op);
        }
        static void read(symx_world::Op& o)
        {
            symx_world::World& w = symx_world::world();
            symx_world::Op* op = &o;
            size_t avail = w.in.size() - w.inPos;
            if (w.closed) {
                op->ec = error::make_error_code(error::operation_aborted);
                op->done = 0;
            } else if (avail) {
                size_t m = avail < op->n ? avail : op->n;
                size_t k = m;
                if (!w.readSizes.empty()) {
                    if (w.readSizes.front() < m)
                        k = w.readSizes.front();
                    w.readSizes.erase(w.readSizes.begin());
                } else if (w.partialReads > 0 && m > 1) {
                    k = m - symx_choice(m, "read");
                    if (k != m)
                        --w.partialReads;
                }
                w.in.copy((char*)op->rp, k, w.inPos);
                w.inPos += k;
                --w.allowReads;
                op->done = k;
            } else {
                op->done = 0;
                op->ec = w.readError ? system::error_code(w.readError, system::system_category()) : error::make_error_code(error::eof);
            }
        }
        // returns false if the call would block
        bool doWrite(symx_world::OpP op)
        {
            symx_world::World& w = symx_world::world();
            if (!write(op->wp, op->n, op->done, op->ec)) {
                w.writeEvent = true; // once it takes something again
                return false;
            }
            w.tryWrites = op->done == op->n;
            w.writeEvent = !op->ec; // unless it failed, it drains
            m_ready.push_back(op);
            return true;
        }
        // the system call
        static bool write(const char* p, size_t n, size_t& done, system::error_code& ec)
        {
            symx_world::World& w = symx_world::world();
            ++w.writes;
            done = 0;
            ec = system::error_code();
            if (w.closed || w.shutWrite || w.writeError || !w.connected) {
                ec = system::error_code(w.closed ? (int)EBADF : w.writeError ? w.writeError : (int)EPIPE, system::system_category());
                return true;
            }
            size_t k = n;
            if (w.stuck)
                k = 0;
            else if (w.partialWrites > 0 && n > 0) {
                uint64_t c = symx_choice(n > 1 ? 4 : 2, "write");
                // everything, nothing yet, one byte, all but one byte
                if (c == 1)
                    k = 0;
                else if (c == 2)
                    k = 1;
                else if (c == 3)
                    k = n - 1;
                if (k != n)
                    --w.partialWrites;
            }
            if (k == 0 && n > 0)
                return false;
            w.wire.append(p, k);
            pthread_cond_broadcast(&w.cv);
            done = k;
            return true;
        }
        bool step(bool block)
        {
            symx_world::World& w = symx_world::world();
            pthread_mutex_lock(&w.mx);
            for (;;) {
                if (m_stopped) {
                    pthread_mutex_unlock(&w.mx);
                    return false;
                }
                // the reactor: move what can proceed to the ready queue
                if (m_ready.empty()) {
                    bool canR = !m_reads.empty() && readable(), canW = !m_writes.empty() && w.writeEvent && writable();
                    bool readFirst = canR && canW && symx_choice(2, "reactor") == 1;
                    if (canW && !readFirst) {
                        symx_world::OpP op = m_writes.front();
                        m_writes.pop_front();
                        if (!doWrite(op))
                            m_writes.push_front(op);
                    } else if (canR) {
                        symx_world::OpP op = m_reads.front();
                        m_reads.pop_front();
                        doRead(op);
                    }
                }
                if (!m_ready.empty()) {
                    symx_world::OpP op = m_ready.front();
                    m_ready.pop_front();
                    pthread_mutex_unlock(&w.mx);
                    if (op->kind == 1 && op->done && w.onWire)
                        w.onWire(w);
                    if (op->kind == 2)
                        op->f();
                    else {
                        symx_world::Handler h;
                        h.swap(op->h);
                        h(op->ec, op->done);
                    }
                    return true;
                }
                if (m_reads.empty() && m_writes.empty()) {
                    m_stopped = true; // out of work
                    pthread_cond_broadcast(&w.cv);
                    pthread_mutex_unlock(&w.mx);
                    return false;
                }
                if (!m_writes.empty() && w.writeEvent && writable())
                    continue;
                if (!block) {
                    pthread_mutex_unlock(&w.mx);
                    return false;
                }
                m_waiting = true;
                pthread_cond_broadcast(&w.cv);
                pthread_cond_wait(&w.cv, &w.mx);
                m_waiting = false;
            }
        }
        size_t runLoop(bool block)
        {
            size_t n = 0;
            while (step(block))
                ++n;
            return n;
        }
    };
    typedef io_context io_service;
    template <typename F>
    inline void post(io_context& c, F f) { c.post(std::move(f)); }
    template <typename F>
    inline void dispatch(io_context& c, F f) { c.dispatch(std::move(f)); }

    struct socket_base {
        enum shutdown_type { shutdown_receive,
            shutdown_send,
            shutdown_both };
    };

    namespace local {
        class stream_protocol {
        public:
            class endpoint {
            public:
                endpoint() {}
                endpoint(const char* p) { set(p); }
                endpoint(const std::string& p) { set(p); }
                std::string path() const { return m_path; }

            private:
                void set(const std::string& p)
                {
                    if (p.size() > sizeof(((sockaddr_un*)0)->sun_path) - 1)
                        throw boost::system::system_error(error::make_error_code(error::name_too_long));
                    m_path = p;
                }
                std::string m_path;
            };
            class socket : public socket_base {
            public:
                typedef io_context executor_type;
                typedef local::stream_protocol protocol_type;
                typedef endpoint endpoint_type;
                explicit socket(io_context& c) : m_ctx(&c) {}
                socket(const socket&) = delete;
                ~socket()
                {
                    boost::system::error_code ec;
                    close(ec);
                }
                executor_type& get_executor() { return *m_ctx; }
                bool is_open() const { return symx_world::world().connected && !symx_world::world().closed; }
                void connect(const endpoint_type& e, boost::system::error_code& ec)
                {
                    symx_world::Lock l;
                    symx_world::World& w = symx_world::world();
                    if (w.connectFails) {
                        ec = error::make_error_code(error::connection_refused);
                        return;
                    }
                    w.connected = true;
                    w.closed = false;
                    w.connectedTo = e.path();
                    ec = boost::system::error_code();
                }
                void connect(const endpoint_type& e)
                {
                    boost::system::error_code ec;
                    connect(e, ec);
                    if (ec)
                        throw boost::system::system_error(ec, "connect");
                }
                void shutdown(shutdown_type how, boost::system::error_code& ec)
                {
                    symx_world::Lock l;
                    symx_world::World& w = symx_world::world();
                    if (!w.connected || w.closed) {
                        ec = error::make_error_code(w.closed ? error::bad_descriptor : error::not_connected);
                        return;
                    }
                    w.writeEvent = true;
                    w.shutRead = w.shutRead || how != shutdown_send;
                    w.shutWrite = w.shutWrite || how != shutdown_receive;
                    ec = boost::system::error_code();
                    pthread_cond_broadcast(&w.cv);
                }
                void shutdown(shutdown_type t)
                {
                    boost::system::error_code ec;
                    shutdown(t, ec);
                    if (ec)
                        throw boost::system::system_error(ec, "shutdown");
                }
                void cancel(boost::system::error_code& ec)
                {
                    symx_world::Lock l;
                    abortOps();
                    ec = boost::system::error_code();
                }
                void cancel()
                {
                    boost::system::error_code ec;
                    cancel(ec);
                }
                void close(boost::system::error_code& ec)
                {
                    symx_world::Lock l;
                    symx_world::World& w = symx_world::world();
                    ec = boost::system::error_code();
                    if (!w.connected || w.closed)
                        return;
                    w.closed = true;
                    abortOps();
                    pthread_cond_broadcast(&w.cv);
                }
                void close()
                {
                    boost::system::error_code ec;
                    close(ec);
                }
                template <typename H>
                void async_read_some(const mutable_buffer& b, H h)
                {
                    auto p = std::make_shared<H>(std::move(h));
                    start(0, b.p, nullptr, b.n, [p](const boost::system::error_code& ec, size_t n) { (*p)(ec, n); });
                }
                template <typename H>
                void async_receive(const mutable_buffer& b, H h) { async_read_some(b, std::move(h)); }
                template <typename H>
                void async_write_some(const const_buffer& b, H h)
                {
                    auto p = std::make_shared<H>(std::move(h));
                    start(1, nullptr, (const char*)b.p, b.n, [p](const boost::system::error_code& ec, size_t n) { (*p)(ec, n); });
                }
                void non_blocking(bool on) { m_nonBlocking = on; }
                void non_blocking(bool on, boost::system::error_code& ec)
                {
                    ec = boost::system::error_code();
                    m_nonBlocking = on;
                }
                bool non_blocking() const { return m_nonBlocking; }
                void native_non_blocking(bool) {}
                size_t available()
                {
                    symx_world::Lock l;
                    return symx_world::world().in.size() - symx_world::world().inPos;
                }
                size_t available(boost::system::error_code& ec)
                {
                    ec = boost::system::error_code();
                    return available();
                }
                size_t write_some(const const_buffer& b, boost::system::error_code& ec)
                {
                    size_t done = 0;
                    {
                        symx_world::Lock l;
                        symx_world::World& w = symx_world::world();
                        if (!m_ctx->m_writes.empty())
                            ++w.overlappingWrites;
                        while (!io_context::write((const char*)b.p, b.n, done, ec)) {
                            if (m_nonBlocking) {
                                ec = error::make_error_code(error::would_block);
                                return 0;
                            }
                            // blocked until the socket takes something
                            while (!m_ctx->writable())
                                pthread_cond_wait(&w.cv, &w.mx);
                        }
                    }
                    if (done && symx_world::world().onWire)
                        symx_world::world().onWire(symx_world::world());
                    return done;
                }
                size_t write_some(const const_buffer& b)
                {
                    boost::system::error_code ec;
                    size_t n = write_some(b, ec);
                    if (ec)
                        throw boost::system::system_error(ec, "write_some");
                    return n;
                }
                size_t read_some(const mutable_buffer& b, boost::system::error_code& ec)
                {
                    symx_world::Lock l;
                    symx_world::World& w = symx_world::world();
                    ec = boost::system::error_code();
                    while (!m_ctx->readable()) {
                        if (m_nonBlocking) {
                            ec = error::make_error_code(error::would_block);
                            return 0;
                        }
                        pthread_cond_wait(&w.cv, &w.mx);
                    }
                    symx_world::Op op;
                    op.rp = b.p;
                    op.n = b.n;
                    io_context::read(op);
                    ec = op.ec;
                    return op.done;
                }
                size_t read_some(const mutable_buffer& b)
                {
                    boost::system::error_code ec;
                    size_t n = read_some(b, ec);
                    if (ec)
                        throw boost::system::system_error(ec, "read_some");
                    return n;
                }
                size_t receive(const mutable_buffer& b) { return read_some(b); }
                size_t send(const const_buffer& b) { return write_some(b); }
                size_t send(const const_buffer& b, int, boost::system::error_code& ec) { return write_some(b, ec); }
                template <typename H>
                void async_send(const const_buffer& b, H h) { async_write_some(b, std::move(h)); }

                void start(int kind, void* rp, const char* wp, size_t n, symx_world::Handler h)
                {
                    symx_world::Lock l;
                    auto op = std::make_shared<symx_world::Op>();
                    op->kind = kind;
                    op->rp = rp;
                    op->wp = wp;
                    op->n = n;
                    op->h = std::move(h);
                    op->done = 0;
                    symx_world::World& w = symx_world::world();
                    if (kind == 0) {
                        if (!m_ctx->m_reads.empty())
                            ++w.overlappingReads;
                        m_ctx->m_reads.push_back(op);
                    } else {
                        if (!m_ctx->m_writes.empty())
                            ++w.overlappingWrites;
                        // the first write is tried at once, later ones queue behind it
                        if (!m_ctx->m_writes.empty())
                            m_ctx->m_writes.push_back(op);
                        else if (!w.tryWrites || !m_ctx->doWrite(op)) {
                            m_ctx->m_writes.push_back(op);
                            if (!w.waitsForWrites) // events for it are requested now, and one is delivered if it is due
                                w.waitsForWrites = w.writeEvent = true;
                        }
                    }
                    pthread_cond_broadcast(&w.cv);
                }

            private:
                void abortOps()
                {
                    for (auto q : { &m_ctx->m_reads, &m_ctx->m_writes })
                        while (!q->empty()) {
                            symx_world::OpP op = q->front();
                            q->pop_front();
                            op->ec = error::make_error_code(error::operation_aborted);
                            op->done = 0;
                            m_ctx->m_ready.push_back(op);
                        }
                }
                io_context* m_ctx;
                bool m_nonBlocking = false;
            };
        };
    }
    namespace ip {
        class tcp {
        public:
            struct socket : socket_base {
            };
        };
    }

    template <typename S>
    struct write_op : std::enable_shared_from_this<write_op<S>> {
        S& s;
        const char* p;
        size_t n, done;
        symx_world::Handler h;
        write_op(S& s_, const char* p_, size_t n_, symx_world::Handler h_) : s(s_), p(p_), n(n_), done(0), h(std::move(h_)) {}
        void go()
        {
            auto self = this->shared_from_this();
            s.async_write_some(const_buffer(p + done, n - done), [self](const boost::system::error_code& ec, size_t k) {
                self->done += k;
                if (ec || self->done >= self->n) {
                    symx_world::Handler h;
                    h.swap(self->h);
                    h(ec, self->done);
                } else
                    self->go();
            });
        }
    };
    template <typename S>
    inline size_t write(S& s, const const_buffer& b, boost::system::error_code& ec)
    {
        size_t done = 0;
        ec = boost::system::error_code();
        while (done < b.n && !ec)
            done += s.write_some(const_buffer((const char*)b.p + done, b.n - done), ec);
        return done;
    }
    template <typename S>
    inline size_t write(S& s, const const_buffer& b)
    {
        boost::system::error_code ec;
        size_t n = write(s, b, ec);
        if (ec)
            throw boost::system::system_error(ec, "write");
        return n;
    }
    struct transfer_all_t {
    };
    inline transfer_all_t transfer_all() { return transfer_all_t(); }
    template <typename S, typename H>
    inline void async_write(S& s, const const_buffer& b, H h);
    template <typename S, typename H>
    inline void async_write(S& s, const const_buffer& b, transfer_all_t, H h) { async_write(s, b, std::move(h)); }
    // handlers already run one after the other
    template <typename F>
    inline F bind_executor(io_context&, F f) { return f; }
    inline io_context& make_strand(io_context& c) { return c; }
    template <typename S, typename H>
    inline void async_write(S& s, const const_buffer& b, H h)
    {
        auto p = std::make_shared<H>(std::move(h));
        std::make_shared<write_op<S>>(s, (const char*)b.p, b.n, [p](const boost::system::error_code& ec, size_t n) { (*p)(ec, n); })->go();
    }
}
}

namespace symx_world {
inline void World::awaitIdle()
{
    pthread_mutex_lock(&mx);
    while (ctx && !ctx->m_stopped && (!ctx->m_waiting || inPos < in.size() || !ctx->m_ready.empty()))
        pthread_cond_wait(&cv, &mx);
    pthread_mutex_unlock(&mx);
}
inline unsigned World::pump() { return ctx ? (unsigned)ctx->poll() : 0; }
}
#endif
