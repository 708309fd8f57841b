// The values stored: plain ones, or (VALBIG) ones that own memory, with which
// torn, foreign or dead values do not go unnoticed.
#pragma once
#ifndef VALBIG
using Val = long;
static long out(const Val &v) { return v; }
static Val mk(long v) { return v; }
#else
struct Val {
  long *p;
  Val(long v) : p(new long(v)) {}
  Val(const Val &o) : p(new long(*o.p)) {}
  Val &operator=(const Val &o) { long *q = new long(*o.p); delete p; p = q; return *this; }
  ~Val() { delete p; p = (long *)0xDEAD000000000008; }
};
static long out(const Val &v) { return *v.p; }
static Val mk(long v) { return Val(v); }
#endif
