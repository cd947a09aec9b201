// Worker threads that execute closures one at a time, in the order the script says.
#pragma once
#include <thread>
#include <mutex>
#include <condition_variable>
#include <functional>
#include <vector>
#include <memory>
#include <exception>
namespace vf {
class Worker {
    std::mutex m; std::condition_variable cv;
    std::function<void()> job; bool stop = false, busy = false;
    std::exception_ptr ex;
    std::thread th;
public:
    Worker() : th([this] { loop(); }) {}
    ~Worker() { finish(); }
    void finish() {
        { std::lock_guard<std::mutex> l(m); stop = true; cv.notify_all(); }
        if (th.joinable()) th.join();
    }
    void loop() {
        for (;;) {
            std::function<void()> j;
            {
                std::unique_lock<std::mutex> l(m);
                cv.wait(l, [&] { return stop || job; });
                if (!job) return;
                j = std::move(job); job = nullptr;
            }
            try { j(); } catch (...) { ex = std::current_exception(); }
            { std::lock_guard<std::mutex> l(m); busy = false; cv.notify_all(); }
        }
    }
    void start(std::function<void()> f) {
        std::lock_guard<std::mutex> l(m);
        ex = nullptr; job = std::move(f); busy = true; cv.notify_all();
    }
    bool wait(int ms = -1) {   // false: still running
        std::unique_lock<std::mutex> l(m);
        if (ms < 0) cv.wait(l, [&] { return !busy; });
        else if (!cv.wait_for(l, std::chrono::milliseconds(ms), [&] { return !busy; })) return false;
        auto e = ex; ex = nullptr;
        if (e) std::rethrow_exception(e);
        return true;
    }
    bool idle() { std::lock_guard<std::mutex> l(m); return !busy; }
    void run(std::function<void()> f) { start(std::move(f)); wait(); }
};
}
