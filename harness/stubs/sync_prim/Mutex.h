// Stand-in for the Mutex of the synchronization-primitives submodule (not part
// of this checkout).  Under the explorer its operations are scheduling points;
// in a single-threaded harness blocking forever is an error.
#pragma once
#include "../vsched_hooks.h"
namespace sync_prim {
namespace mutex {
class Mutex {
public:
  Mutex() = default;
  Mutex(const Mutex &) = delete;
  Mutex &operator=(const Mutex &) = delete;
  VS_NOINST void lock() { vs_mutex_lock(&m_word); }
  VS_NOINST bool try_lock() { return vs_mutex_try_lock(&m_word); }
  VS_NOINST void unlock() { vs_mutex_unlock(&m_word); }
  VS_NOINST bool is_locked() const { return vs_mutex_is_locked(&m_word); }

private:
  mutable long m_word = 0;
};
} // namespace mutex
} // namespace sync_prim
