// Worker threads that are reused by all runs of a process.
#pragma once
#include <condition_variable>
#include <functional>
#include <mutex>
#include <thread>
#include <vector>

struct Pool {
    std::vector<std::thread> th;
    std::mutex mu;
    std::condition_variable cv, done;
    uint64_t gen = 0;
    int left = 0;
    bool stop = false;
    std::function<void(int)> job;
    int n;
    explicit Pool(int n) : n(n) {
        for (int i = 0; i < n; i++)
            th.emplace_back([this, i] {
                uint64_t g = 0;
                while (true) {
                    std::function<void(int)> j;
                    {
                        std::unique_lock<std::mutex> l(mu);
                        cv.wait(l, [&] { return stop || gen != g; });
                        if (stop) return;
                        g = gen;
                        j = job;
                    }
                    j(i);
                    std::unique_lock<std::mutex> l(mu);
                    if (--left == 0) done.notify_all();
                }
            });
    }
    void start(std::function<void(int)> j) {
        std::unique_lock<std::mutex> l(mu);
        job = std::move(j);
        left = n;
        gen++;
        cv.notify_all();
    }
    void wait() {
        std::unique_lock<std::mutex> l(mu);
        done.wait(l, [&] { return left == 0; });
    }
    ~Pool() {
        {
            std::unique_lock<std::mutex> l(mu);
            stop = true;
            cv.notify_all();
        }
        for (auto &t : th)
            t.join();
    }
};
