// Stand-in for the parts of PTL (the tasking library) that libtomo's accelerated kernels use:
// real threads, a real queue, random delays so that task orders differ from run to run.
#pragma once
#include <atomic>
#include <condition_variable>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <deque>
#include <functional>
#include <mutex>
#include <sstream>
#include <stdexcept>
#include <string>
#include <thread>
#include <vector>

extern "C" {
struct ptl_observed_t
{
    std::atomic<long> pools{0}, threads{0}, tasks{0}, running{0}, max_running{0};
    std::atomic<long> delay_us{0}, fail_after{-1};
};
}
inline ptl_observed_t& ptl_observed()
{
    static ptl_observed_t o;
    return o;
}

namespace PTL
{
using Mutex    = std::mutex;
using AutoLock = std::unique_lock<std::mutex>;
template <typename Tp, typename MutexTp = Mutex>
MutexTp& TypeMutex(const unsigned& = 0)
{
    static MutexTp* m = new MutexTp;
    return *m;
}
template <typename... A>
inline void ConsumeParameters(A&&...) {}

template <typename Tp>
Tp GetEnv(const std::string& id, Tp def = Tp())
{
    const char* e = std::getenv(id.c_str());
    if(!e)
        return def;
    std::istringstream iss(e);
    Tp v = Tp();
    iss >> v;
    return v;
}

class ThreadPool
{
public:
    struct Config
    {
        unsigned pool_size = std::thread::hardware_concurrency();
    };
    explicit ThreadPool(const Config& c)
    {
        auto base = get_this_thread_id();
        ++ptl_observed().pools;
        if(c.pool_size > 500)
            throw std::runtime_error("more threads than the machine can run");
        try
        {
            for(unsigned i = 0; i < c.pool_size; ++i)
            {
                m_threads.emplace_back([this, base, i] { set_id(base + i + 1); work(); });
                ++ptl_observed().threads;
            }
        }
        catch(...)
        {
            destroy_threadpool();
            throw;
        }
    }
    ~ThreadPool() { destroy_threadpool(); }
    std::size_t size() const { return m_threads.size(); }
    std::size_t destroy_threadpool()
    {
        {
            AutoLock l(m_mtx);
            m_stop = true;
        }
        m_cv.notify_all();
        for(auto& t : m_threads)
            if(t.joinable())
                t.join();
        auto n = m_threads.size();
        m_threads.clear();
        return n;
    }
    static uintmax_t get_this_thread_id() { return id(); }
    void push(std::function<void()> f)
    {
        {
            AutoLock l(m_mtx);
            m_queue.push_back(std::move(f));
        }
        m_cv.notify_one();
    }

private:
    static uintmax_t& id()
    {
        static std::atomic<uintmax_t> next{0};
        thread_local uintmax_t        v = next++;
        return v;
    }
    static void set_id(uintmax_t v) { id() = v; }
    void work()
    {
        unsigned s = unsigned(id()) * 2654435761u + 12345u;
        for(;;)
        {
            std::function<void()> f;
            {
                AutoLock l(m_mtx);
                m_cv.wait(l, [&] { return m_stop || !m_queue.empty(); });
                if(m_queue.empty())
                    return;
                f = std::move(m_queue.front());
                m_queue.pop_front();
            }
            auto& o = ptl_observed();
            long  d = o.delay_us;
            if(d > 0)
            {
                s = s * 1103515245u + 12345u;
                std::this_thread::sleep_for(std::chrono::microseconds((s >> 16) % (unsigned long) d));
            }
            long r = ++o.running, m = o.max_running;
            while(r > m && !o.max_running.compare_exchange_weak(m, r)) {}
            ++o.tasks;
            f();
            --o.running;
        }
    }
    std::vector<std::thread>          m_threads;
    std::deque<std::function<void()>> m_queue;
    Mutex                             m_mtx;
    std::condition_variable           m_cv;
    bool                              m_stop = false;
};

struct ThreadData
{
    explicit ThreadData(ThreadPool* tp) : thread_pool(tp) {}
    static ThreadData*& GetInstance()
    {
        thread_local ThreadData* p = nullptr;
        return p;
    }
    bool        is_main     = false;
    bool        within_task = true;
    int         task_depth  = 0;
    ThreadPool* thread_pool = nullptr;
};

template <typename Ret, typename Arg = Ret, intmax_t MaxDepth = 0>
class TaskGroup
{
public:
    template <typename Join>
    TaskGroup(Join&& j, ThreadPool* tp) : m_join(std::forward<Join>(j)), m_pool(tp) {}
    explicit TaskGroup(ThreadPool* tp) : m_pool(tp) {}
    TaskGroup(const TaskGroup&) = delete;
    ~TaskGroup() { wait(); }
    template <typename F, typename... A>
    void run(F f, A... a)
    {
        {
            AutoLock l(m_mtx);
            ++m_left;
        }
        std::function<void()> g = std::bind(f, a...);
        m_pool->push([this, g] {
            std::string err;
            bool        bad = false;
            try
            {
                auto& o = ptl_observed();
                if(o.fail_after >= 0 && o.fail_after-- == 0)
                    throw std::runtime_error("injected task failure");
                g();
            }
            catch(std::exception& e)
            {
                bad = true;
                err = e.what();
            }
            AutoLock l(m_mtx);
            if(bad && !m_bad)
            {
                m_bad = true;
                m_err = err;
            }
            --m_left;
            m_cv.notify_all();
        });
    }
    template <typename F, typename... A>
    void exec(F f, A... a)
    {
        run(f, a...);
    }
    void wait()
    {
        AutoLock l(m_mtx);
        m_cv.wait(l, [&] { return m_left == 0; });
    }
    void join()
    {
        wait();
        if(m_bad)
        {
            m_bad = false;
            throw std::runtime_error(m_err);
        }
        if(m_join)
            m_join();
    }

private:
    std::function<void()>   m_join;
    ThreadPool*             m_pool;
    long                    m_left = 0;
    bool                    m_bad  = false;
    std::string             m_err;
    Mutex                   m_mtx;
    std::condition_variable m_cv;
};
}  // namespace PTL
