// Stands in for CTPL (not available here): a pool of threads that takes tasks in the order in which they were pushed.
#pragma once
#ifdef VF_NATIVE
#include <functional>
#include <thread>
#include <mutex>
#include <condition_variable>
#include <queue>
#include <vector>
#include <unistd.h>
namespace ctpl { inline unsigned& jitter() { static unsigned j = 0; return j; } // tasks are delayed by up to so many microseconds
class thread_pool { std::vector<std::thread> t; unsigned n; std::queue<std::function<void(int)> > q; std::mutex m; std::condition_variable cv; bool done;
    void run(int id) { for (;;) { std::function<void(int)> f; unsigned d; { std::unique_lock<std::mutex> l(m); cv.wait(l, [this] { return done || !q.empty(); }); if (q.empty()) return; f = q.front(); q.pop(); d = jitter() ? (++n * 2654435761u >> 12) % jitter() : 0; } if (d & 1) usleep(d); f(id); if (d & 2) std::this_thread::yield(); } }
public: thread_pool(int n) : n(0), done(false) { for (int i = 0; i < n; ++i) t.emplace_back([this, i] { run(i); }); } ~thread_pool() { stop(true); }
    template<class F, class P, class Q> void push(F&& f, P a, Q b) { { std::lock_guard<std::mutex> l(m); q.push([=](int id) { f(id, a, b); }); } cv.notify_one(); }
    void stop(bool) { { std::lock_guard<std::mutex> l(m); done = true; } cv.notify_all(); for (auto& x : t) if (x.joinable()) x.join(); } }; }
#else
extern "C" void vgs_pool(void* request, void* queue, void* f); extern "C" void vgs_pool_stop(bool finish);
namespace ctpl { class thread_pool { int n; public: thread_pool(int k) : n(k) {} template<class F, class P, class Q> void push(F&& f, P a, Q b) { vgs_pool(a.get(), b, (void*) f); } void stop(bool finish) { vgs_pool_stop(finish); } }; }
#endif
