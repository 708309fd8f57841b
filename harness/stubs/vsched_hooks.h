#pragma once
#if defined(__clang__)
#define VS_NOINST __attribute__((no_sanitize("thread")))
#else
#define VS_NOINST
#endif
#ifdef VS_EXPLORER
extern "C" {
void vs_mutex_lock(long *);
bool vs_mutex_try_lock(long *);
void vs_mutex_unlock(long *);
bool vs_mutex_is_locked(long *);
int vs_thread_id();
int vs_max_thread_id();
}
#else
#include <cstdio>
#include <cstdlib>
inline void vs_mutex_lock(long *w) {
  if (*w) { fprintf(stderr, "self-deadlock\n"); abort(); }
  *w = 1;
}
inline bool vs_mutex_try_lock(long *w) { return *w ? false : (*w = 1, true); }
inline void vs_mutex_unlock(long *w) {
  if (!*w) { fprintf(stderr, "unlock of an unlocked mutex\n"); abort(); }
  *w = 0;
}
inline bool vs_mutex_is_locked(long *w) { return *w; }
inline int vs_thread_id() { return 0; }
inline int vs_max_thread_id() { return 0; }
#endif
