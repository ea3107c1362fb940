// Model library for the Python session checks: outputs echo the inputs, read
// element by element through the strides the model was given.
#include "onnx-mlir/Runtime/OMTensor.h"
#include "onnx-mlir/Runtime/OMTensorList.h"
#include <errno.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
void omTensorSetDataPtr(OMTensor *, int64_t, void *, void *);
#define EXP __attribute__((visibility("default")))
// what to do, set through ctypes
EXP int verif_mode[16];  // per output
EXP int verif_fail, verif_sig, verif_prints, verif_clobber, verif_badtype;
EXP int64_t verif_bound = 1 << 20; // elements readable from the data pointer
static _Alignas(16) char constants[16][1 << 16];

static int64_t count(OMTensor *t) {
  int64_t n = 1;
  for (int64_t d = 0; d < omTensorGetRank(t); d++)
    n *= omTensorGetShape(t)[d];
  return n;
}
static int64_t esize(OMTensor *t) {
  return omTensorGetDataType(t) == ONNX_TYPE_STRING
             ? 8
             : OM_DATA_TYPE_SIZE[omTensorGetDataType(t)];
}
static int64_t offset(OMTensor *t, int64_t k, int *bad) {
  int64_t r = omTensorGetRank(t), off = 0;
  const int64_t *sh = omTensorGetShape(t), *st = omTensorGetStrides(t);
  for (int64_t d = r; d-- > 0;) {
    off += (k % sh[d]) * st[d];
    k /= sh[d];
  }
  if (off < 0 || off >= count(t))
    *bad = 1; // outside of the data that was given
  return off;
}
static OMTensor *echo(OMTensor *t, int mode, OMTensor *prev, int index) {
  char *constant = constants[index];
  int64_t n = count(t), rank = omTensorGetRank(t);
  OM_DATA_TYPE ty = omTensorGetDataType(t);
  int64_t es = esize(t);
  int bad = 0;
  char *src = (char *)omTensorGetDataPtr(t);
  if (mode == 3 && prev) { // same allocation, same or later start
    OMTensor *o = omTensorCreateWithOwnership(omTensorGetDataPtr(prev),
        omTensorGetShape(prev), omTensorGetRank(prev),
        omTensorGetDataType(prev), 0);
    omTensorSetDataPtr(o, 1, omTensorGetAllocatedPtr(prev),
        omTensorGetDataPtr(prev));
    return o;
  }
  if (ty == ONNX_TYPE_STRING) {
    size_t len = n * sizeof(char *) + 1;
    for (int64_t i = 0; i < n; i++) {
      int64_t o = offset(t, i, &bad);
      len += bad ? 0 : strlen(((char **)src)[o]) + 1;
    }
    char *buf = malloc(len), *p = buf + n * sizeof(char *);
    for (int64_t i = 0; i < n; i++) {
      int64_t o = offset(t, i, &bad);
      const char *s = bad ? "" : ((char **)src)[o];
      strcpy(p, s);
      ((char **)buf)[i] = p;
      p += strlen(s) + 1;
    }
    return omTensorCreateWithOwnership(
        buf, omTensorGetShape(t), rank, ty, 1);
  }
  char *alloc, *data;
  if (mode == 2 && n * es <= (int64_t)sizeof constants[0])
    alloc = data = constant;
  else {
    int64_t shift = mode == 1 ? 64 : 0;
    alloc = malloc(n * es + shift + 1);
    data = alloc + shift;
  }
  for (int64_t i = 0; i < n; i++) {
    int64_t o = offset(t, i, &bad);
    if (bad)
      memset(data + i * es, 0x5b, es);
    else
      memcpy(data + i * es, src + o * es, es);
  }
  OMTensor *o = omTensorCreateWithOwnership(
      data, omTensorGetShape(t), rank, ty, 0);
  omTensorSetDataPtr(o, data != constant, alloc, data);
  return o;
}
static OMTensorList *go(OMTensorList *in) {
  int64_t n = omTensorListGetSize(in);
  if (verif_fail) {
    errno = verif_fail;
    return NULL;
  }
  if (verif_sig == SIGSEGV)
    *(volatile int *)16 = 1;
  else if (verif_sig == SIGABRT)
    abort();
  else if (verif_sig)
    raise(verif_sig);
  OMTensor **out = (OMTensor **)malloc((n + 1) * sizeof *out);
  for (int64_t i = 0; i < n; i++)
    out[i] = echo(omTensorListGetOmtByIndex(in, i), verif_mode[i],
        i ? out[i - 1] : NULL, i);
  if (verif_badtype && n)
    omTensorSetDataType(out[n - 1], (OM_DATA_TYPE)verif_badtype);
  if (verif_clobber)
    for (int64_t i = 0; i < n; i++) {
      OMTensor *t = omTensorListGetOmtByIndex(in, i);
      if (omTensorGetDataType(t) != ONNX_TYPE_STRING)
        memset(omTensorGetDataPtr(t), 0x11, count(t) * esize(t));
    }
  OMTensorList *l = omTensorListCreate(out, n);
  free(out);
  return l;
}
EXP OMTensorList *run_main_graph_pymodel(OMTensorList *in) { return go(in); }
EXP OMTensorList *run_rev_pymodel(OMTensorList *in) { // reversed outputs
  OMTensorList *l = go(in);
  if (!l)
    return l;
  int64_t n = omTensorListGetSize(l);
  OMTensor **o = (OMTensor **)malloc((n + 1) * sizeof *o);
  for (int64_t i = 0; i < n; i++)
    o[i] = omTensorListGetOmtByIndex(l, n - 1 - i);
  OMTensorList *r = omTensorListCreate(o, n);
  free(o);
  omTensorListDestroyShallow(l);
  return r;
}
static const char *eps[] = {
    "run_main_graph_pymodel", "run_rev_pymodel", NULL};
EXP const char **omQueryEntryPoints_pymodel(int64_t *n) {
  if (n)
    *n = 2;
  return eps;
}
static char insig[1 << 16] = "[]";
EXP void verif_set_sig(const char *s) { strncpy(insig, s, sizeof insig - 1); }
EXP const char *omInputSignature_pymodel(const char *e) { return insig; }
EXP const char *omOutputSignature_pymodel(const char *e) {
  return strcmp(e, eps[1]) ? "[\"o\"]" : "[\"rev\"]";
}
EXP const char *omCompilationInfo_pymodel(void) { return "{\"x\":\"\xc3\xa9\"}"; }
EXP void omInstrumentPrint(void) { verif_prints++; }
FILE *getInstrumentFile(void) { return stdout; }
