/* A model that does what its first input says.  Every block that the wrapper
 * or the runtime (all linked here, with malloc and free wrapped) allocates is
 * accounted for. */
#include "OnnxMlirRuntime.h"
#include <pthread.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

void *__real_malloc(size_t);
void __real_free(void *);
static pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER;
static int64_t live, bad;
#define CAP (1 << 16)
static void *tab[CAP];

static void track(void *p) {
  if (!p) return;
  pthread_mutex_lock(&mu);
  for (unsigned i = ((uintptr_t)p >> 4) % CAP;; i = (i + 1) % CAP)
    if (tab[i] == NULL || tab[i] == (void *)1) { tab[i] = p; break; }
  live++;
  pthread_mutex_unlock(&mu);
}
static void untrack(void *p) {
  if (!p) return;
  pthread_mutex_lock(&mu);
  unsigned i = ((uintptr_t)p >> 4) % CAP;
  for (; tab[i] && tab[i] != p; i = (i + 1) % CAP) ;
  if (tab[i] == p) { tab[i] = (void *)1; live--; } else bad++;
  pthread_mutex_unlock(&mu);
}
void *__wrap_malloc(size_t n) { void *p = __real_malloc(n); if (p) memset(p, 0xa5, n); track(p); return p; }
void __wrap_free(void *p) { untrack(p); __real_free(p); }
void *__wrap_calloc(size_t a, size_t b) { void *p = __real_malloc(a * b ? a * b : 1); if (p) memset(p, 0, a * b); track(p); return p; }

#define NEP 3
static char *eps[NEP + 1], *isig[NEP], *osig[NEP], *info;
static int64_t neps;
static char infobuf[128];

const char *const *omQueryEntryPoints(int64_t *n) {
  static const char *view[NEP + 1];
  if (n) *n = neps;
  for (int i = 0; i <= NEP; i++) view[i] = i < neps ? eps[i] : NULL;
  return view;
}
static const char *find(char **t, const char *ep) {
  for (int i = 0; i < neps; i++) if (!strcmp(eps[i], ep)) return t[i];
  return NULL;
}
const char *omInputSignature(const char *ep) { return find(isig, ep); }
const char *omOutputSignature(const char *ep) { return find(osig, ep); }
const char *omCompilationInfo() {
  if (info) return info;
  snprintf(infobuf, sizeof infobuf, "live %lld bad %lld", (long long)live, (long long)bad);
  return infobuf;
}

static char *text(const int64_t *p, int64_t n) {
  char *s = __real_malloc(n + 1);
  for (int64_t i = 0; i < n; i++) s[i] = p[i];
  s[n] = 0;
  return s;
}

/* Input 0, int64:
 *   0 n { type rank dims... strides... seed owning }*n : outputs to make,
 *     then one int64 tensor with what was seen of the inputs;
 *   1 : fail;   2 : echo the other inputs, by reference to copies
 *   3 slot len bytes... : set a string (0-2 eps, 3-5 isig, 6-8 osig, 9 info)
 *   4 n : number of entry points;   5 : forget info */
OMTensorList *run_main_graph(OMTensorList *in) {
  int64_t n = omTensorListGetSize(in);
  OMTensor **t = omTensorListGetOmtArray(in);
  const int64_t *c = omTensorGetDataPtr(t[0]);
  OMTensor *out[64];
  int64_t k = 0;
  switch (*c++) {
  case 1: return NULL;
  case 3: {
    int64_t s = *c++, len = *c++;
    char **p = s < 3 ? &eps[s] : s < 6 ? &isig[s - 3] : s < 9 ? &osig[s - 6] : &info;
    __real_free(*p);
    *p = text(c, len);
    break;
  }
  case 4: neps = *c; break;
  case 5: __real_free(info); info = NULL; break;
  case 2:
    for (int64_t i = 1; i < n; i++) {
      int64_t sz = omTensorGetBufferSize(t[i]);
      void *d = malloc(sz ? sz : 1);
      memcpy(d, omTensorGetDataPtr(t[i]), sz);
      out[k++] = omTensorCreateWithOwnership(d, omTensorGetShape(t[i]), omTensorGetRank(t[i]), omTensorGetDataType(t[i]), 1);
      omTensorSetStrides(out[k - 1], omTensorGetStrides(t[i]));
    }
    break;
  case 0: {
    int64_t m = *c++;
    for (int64_t i = 0; i < m; i++) {
      int64_t ty = *c++, r = *c++;
      const int64_t *sh = c, *st = c + r;
      c += 2 * r;
      uint64_t seed = *c++;
      int64_t own = *c++, sz = *c++;
      static char fixed[8][4096];
      unsigned char *d = own ? malloc(sz ? sz : 1) : (unsigned char *)fixed[i];
      for (int64_t j = 0; j < sz; j++) d[j] = (seed = seed * 1103515245 + 12345) >> 16;
      out[k] = omTensorCreateWithOwnership(d, sh, r, ty, own);
      omTensorSetStrides(out[k++], st);
    }
  }
  }
  /* What the model saw. */
  int64_t *w = malloc(4096 * 8), j = 0;
  w[j++] = n;
  for (int64_t i = 1; i < n; i++) {
    int64_t r = omTensorGetRank(t[i]), sz = omTensorGetBufferSize(t[i]);
    w[j++] = r;
    w[j++] = omTensorGetDataType(t[i]);
    for (int64_t a = 0; a < r; a++) w[j++] = omTensorGetShape(t[i])[a];
    for (int64_t a = 0; a < r; a++) w[j++] = omTensorGetStrides(t[i])[a];
    w[j++] = sz;
    w[j++] = omTensorGetOwning(t[i]);
    uint64_t h = 1469598103934665603ull;
    for (int64_t a = 0; a < sz; a++) h = (h ^ ((unsigned char *)omTensorGetDataPtr(t[i]))[a]) * 1099511628211ull;
    w[j++] = h;
  }
  int64_t sh[1] = {j};
  out[k++] = omTensorCreateWithOwnership(w, sh, 1, ONNX_TYPE_INT64, 1);
  return omTensorListCreate(out, k);
}
