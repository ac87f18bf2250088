// Stand-in for the lock of immer::atom: a mutex instead of a loop that spins.
#pragma once
#include <mutex>
namespace immer {
struct spinlock_policy
{
    std::mutex m_;
    bool try_lock() { return m_.try_lock(); }
    void lock() { m_.lock(); }
    void unlock() { m_.unlock(); }
    struct scoped_lock
    {
        scoped_lock(const scoped_lock&) = delete;
        scoped_lock& operator=(const scoped_lock&) = delete;
        explicit scoped_lock(spinlock_policy& sp)
            : sp_{sp}
        {
            sp_.lock();
        }
        ~scoped_lock() { sp_.unlock(); }
        spinlock_policy& sp_;
    };
};
} // namespace immer
