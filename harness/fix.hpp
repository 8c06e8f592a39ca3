// Shared key material: deterministic parallel construction.
#pragma once
#include <atomic>
#include <exception>
#include <mutex>
#include <thread>

#include "noise.hpp"
namespace tf {
// Runs the jobs concurrently, each in a fresh thread with its own entropy
// stream (so the result does not depend on the schedule).
inline void build_parallel(uint64_t seed, const std::vector<std::function<void()>> &jobs, int threads = 8)
{
    std::atomic<size_t> next{0};
    std::exception_ptr err;
    std::mutex mu;
    auto work = [&] {
        for (size_t i; (i = next++) < jobs.size();) try {
                pbt::fresh_thread(pbt::hash2(seed, i + 1), jobs[i]);
            }
            catch (...) {
                std::lock_guard l(mu);
                err = std::current_exception();
            }
    };
    std::vector<std::thread> pool;
    for (int i = 0; i < threads; i++) pool.emplace_back(work);
    for (auto &t : pool) t.join();
    if (err) std::rethrow_exception(err);
}
}  // namespace tf
