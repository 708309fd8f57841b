// Stand-in for the ThreadRegistry of the synchronization-primitives submodule.
#pragma once
#include "../vsched_hooks.h"
namespace sync_prim {
class ThreadRegistry {
public:
  static constexpr int MAX_THREADS = 8;
  static bool RegisterThread() { return true; }
  static void UnregisterThread() {}
  VS_NOINST static int ThreadID() { return vs_thread_id(); }
  VS_NOINST static int MaxThreadID() { return vs_max_thread_id(); }
};
} // namespace sync_prim
