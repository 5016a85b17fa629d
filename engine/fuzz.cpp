// libFuzzer entry: the target is chosen by PBT_PROP / PBT_TARGET.
#include "pbt.h"
#include <cstdio>
#include <cstdlib>
using namespace pbt;
static const Target *g_t;
extern "C" int LLVMFuzzerInitialize(int *, char ***) {
  const char *p = getenv("PBT_PROP"), *n = getenv("PBT_TARGET");
  for (auto &t : targets())
    if (p && n && !strcmp(p, t.prop) && !strcmp(n, t.name)) g_t = &t;
  if (!g_t) { fprintf(stderr, "no such target\n"); exit(3); }
  return 0;
}
extern "C" int LLVMFuzzerTestOneInput(const uint8_t *d, size_t n) {
  static T *t = new T;
  t->begin_replay(d, n);
  try { g_t->fn(*t); }
  catch (const Fail &f) { fprintf(stderr, "PBT FAIL %s\n", f.msg.c_str()); abort(); }
  catch (const Discard &) { return -1; }
  return 0;
}
