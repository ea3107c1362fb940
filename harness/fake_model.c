// A model library as onnx-mlir would produce it, with behaviour driven by the
// first element of the first input. Built several times with different
// -DTAG / -DKADD / -DNO_* to make the fixtures of the session checks.
#include "onnx-mlir/Runtime/OMTensor.h"
#include "onnx-mlir/Runtime/OMTensorList.h"
#include <errno.h>
#include <signal.h>
#include <stdatomic.h>
#include <stdlib.h>
#include <string.h>
#define EXP __attribute__((visibility("default")))
#define CAT_(a, b) a##b
#define CAT(a, b) CAT_(a, b)
#define STR_(a) #a
#define STR(a) STR_(a)
#ifndef KADD
#define KADD 1
#endif

static char constPath[4096];
static int constSet;
static atomic_int runs, prints;
__attribute__((constructor)) static void ctor(void) {
  const char *e = getenv("OM_CONSTANT_PATH");
  constSet = e != NULL;
  if (e)
    strncpy(constPath, e, sizeof constPath - 1);
}
EXP const char *verif_const_path(void) { return constSet ? constPath : NULL; }
EXP int verif_runs(void) { return runs; }
EXP int verif_prints(void) { return prints; }

static OMTensorList *go(OMTensorList *in, int64_t k) {
  atomic_fetch_add(&runs, 1);
  int64_t n = omTensorListGetSize(in);
  if (n < 1) {
    errno = EINVAL;
    return NULL;
  }
  OMTensor *t0 = omTensorListGetOmtByIndex(in, 0);
  const int64_t *cmd = (const int64_t *)omTensorGetDataPtr(t0);
  if (cmd[0] == 1) {
    errno = (int)cmd[1];
    return NULL;
  }
  if (cmd[0] == 2) {
    volatile int zero = 0;
    switch (cmd[1]) {
    case SIGSEGV:
      *(volatile int *)16 = 1;
      break;
    case SIGFPE:
      zero = 77 / zero;
      break;
    case SIGABRT:
      abort();
    case SIGILL:
      __builtin_trap();
    default:
      raise((int)cmd[1]);
    }
  }
  if (cmd[0] == 3) // leave a stale error code behind a success
    errno = (int)cmd[1];
  OMTensor **out = (OMTensor **)malloc(n * sizeof *out);
  for (int64_t i = 0; i < n; i++) {
    OMTensor *t = omTensorListGetOmtByIndex(in, i);
    out[i] = omTensorCreateEmpty(
        omTensorGetShape(t), omTensorGetRank(t), omTensorGetDataType(t));
    int64_t m = omTensorGetNumElems(t);
    const int64_t *a = (const int64_t *)omTensorGetDataPtr(t);
    int64_t *b = (int64_t *)omTensorGetDataPtr(out[i]);
    for (int64_t j = 0; j < m; j++)
      b[j] = a[j] + k;
  }
  OMTensorList *l = omTensorListCreate(out, n);
  free(out);
  if (cmd[0] == 3)
    errno = (int)cmd[1];
  return l;
}

#ifndef NO_MAIN
EXP OMTensorList *CAT(run_main_graph, TAG)(OMTensorList *in) {
  return go(in, KADD);
}
#endif
EXP OMTensorList *CAT(run_second, TAG)(OMTensorList *in) {
  return go(in, KADD + 1000);
}
static const char *eps[] = {
#ifndef NO_MAIN
    "run_main_graph" STR(TAG),
#endif
    "run_second" STR(TAG), NULL};
#ifndef NO_QUERY
EXP const char **CAT(omQueryEntryPoints, TAG)(int64_t *n) {
  if (n)
    *n = (int64_t)(sizeof eps / sizeof *eps) - 1;
  return eps;
}
#endif
static const char *sig(const char *ep, const char *main, const char *second) {
  if (!strcmp(ep, "run_main_graph" STR(TAG)))
    return main;
  if (!strcmp(ep, "run_second" STR(TAG)))
    return second;
  return NULL;
}
#ifndef NO_INSIG
EXP const char *CAT(omInputSignature, TAG)(const char *ep) {
  return sig(ep, "[{\"type\":\"i64\",\"dims\":[2,3],\"name\":\"in" STR(KADD) "\"}]",
      "[{\"type\":\"i64\",\"dims\":[4],\"name\":\"sec" STR(KADD) "\"}]");
}
#endif
#ifndef NO_OUTSIG
EXP const char *CAT(omOutputSignature, TAG)(const char *ep) {
  return sig(ep, "[{\"type\":\"i64\",\"dims\":[2,3],\"name\":\"out" STR(KADD) "\"}]",
      "[{\"type\":\"i64\",\"dims\":[4],\"name\":\"osec" STR(KADD) "\"}]");
}
#endif
#ifndef NO_INFO
EXP const char *CAT(omCompilationInfo, TAG)(void) {
  return "{\"k\":" STR(KADD) "}";
}
#endif
#ifndef NO_PRINT
EXP void omInstrumentPrint(void) { atomic_fetch_add(&prints, 1); }
#endif
