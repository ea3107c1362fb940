"""Client of the compile server, graph building, and comparison with the ONNX
reference evaluator."""
import atexit
import json
import math
import os
import re
import struct
import subprocess
import sys
import warnings

import numpy as np
import onnx
from onnx import helper as oh
from onnx import numpy_helper as nh
from onnx.reference import ReferenceEvaluator

import cc_ref
import pypbt
from pypbt import Discard, Fail

warnings.simplefilter("ignore")
np.seterr(all="ignore")

BUILD = os.environ.get("VERIF_BUILD", "/verif/build")

TP = onnx.TensorProto
DT = {"f32": np.float32, "f64": np.float64, "f16": np.float16,
      "i8": np.int8, "i16": np.int16, "i32": np.int32, "i64": np.int64,
      "u8": np.uint8, "u16": np.uint16, "u32": np.uint32, "u64": np.uint64,
      "bool": np.bool_}
OT = {"f32": 1, "u8": 2, "i8": 3, "u16": 4, "i16": 5, "i32": 6, "i64": 7,
      "str": 8, "bool": 9, "f16": 10, "f64": 11, "u32": 12, "u64": 13}
NT = {np.dtype(v): k for k, v in DT.items()}
OT2DT = {OT[k]: np.dtype(v) for k, v in DT.items()}
FLOATS = ("f32", "f64", "f16")


def tname(a):
    return NT[a.dtype]


class Server:
    def __init__(self):
        self.p = subprocess.Popen(
            [os.path.join(BUILD, "bin", "cc_server")], stdin=subprocess.PIPE,
            stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)

    def _read(self, n):
        b = b""
        while len(b) < n:
            c = self.p.stdout.read(n - len(b))
            if not c:
                raise RuntimeError("compile server is gone")
            b += c
        return b

    def request(self, h, model, data=b""):
        hs = json.dumps(h).encode()
        self.p.stdin.write(struct.pack("<III", len(hs), len(model), len(data))
                           + hs + model + data)
        self.p.stdin.flush()
        a, e = struct.unpack("<II", self._read(8))
        ans, err = self._read(a), self._read(e).decode(errors="replace")
        n = struct.unpack("<I", ans[:4])[0]
        return json.loads(ans[4:4 + n].decode(errors="replace")), \
            ans[4 + n:], err


_srv = {}


def server():
    k = os.getpid()
    if k not in _srv:
        _srv.clear()
        _srv[k] = Server()
    return _srv[k]


# --- compiled runs ----------------------------------------------------------

class Result:
    def __init__(self, h, err):
        self.h, self.err = h, err
        self.status = h["status"]
        self.runs = []

    @property
    def ok(self):
        return self.status == "ok"

    def why(self):
        return "%s %s sig=%s %s\n%s" % (
            self.status, self.h.get("stage", ""), self.h.get("signal", ""),
            self.h.get("message", "")[:500], clean_err(self.err)[-900:])


def clean_err(e):
    i = e.find("Stack dump:")
    if i < 0:
        i = e.find("PLEASE submit")
    return e if i < 0 else e[:i]


def compile_run(model, sets, args=(), mode="run", text=False, limit=60,
                env=None):
    mb = model if isinstance(model, bytes) else model.SerializeToString()
    hs, data = [], b""
    for st in sets:
        l = []
        for a in st:
            a = np.ascontiguousarray(a) if a.ndim else a.copy()
            b = a.tobytes()
            l.append({"shape": list(a.shape), "type": OT[tname(a)],
                      "nbytes": len(b)})
            data += b
        hs.append(l)
    h, raw, err = server().request(
        {"args": list(args), "mode": mode, "sets": hs, "text": text,
         "limit": limit, "env": env or {}}, mb, data)
    r = Result(h, err)
    off = 0
    for ro in h.get("runs", []):
        if ro.get("null"):
            r.runs.append(None)
            continue
        outs = []
        for o in ro["outs"]:
            b = raw[off:off + o["nbytes"]]
            off += o["nbytes"]
            if o["type"] == 8:
                a = np.array(b.decode(errors="replace").split("\0")[:-1],
                             dtype=object).reshape(o["shape"])
            else:
                dt = OT2DT[o["type"]]
                n = int(np.prod(o["shape"], dtype=np.int64))
                if len(b) != n * dt.itemsize:
                    raise Fail("output %r has %d bytes" % (o, len(b)))
                a = np.frombuffer(b, dt).reshape(o["shape"])
            want = [int(np.prod(o["shape"][k + 1:], dtype=np.int64))
                    for k in range(len(o["shape"]))]
            if o["strides"] != want and n:
                raise Fail("output strides %s for shape %s" % (
                    o["strides"], o["shape"]))
            outs.append(a)
        if not ro["inputs_kept"]:
            raise Fail("a run changed its input tensors")
        r.runs.append(outs)
    return r


MT = {"i1": "bool", "ui8": "u8", "ui16": "u16", "ui32": "u32", "ui64": "u64"}


def parse_type(s):
    """(element type, dims or None) of a printed tensor type; -1: unknown."""
    m = re.fullmatch(r"tensor<(.*)>", s)
    if not m:
        raise Fail("type %s" % s)
    b = m.group(1).split(", #")[0]
    *d, e = b.split("x")
    return MT.get(e, e), None if d == ["*"] else [
        -1 if x == "?" else int(x) for x in d]


def fits(ty, a, where):
    """A printed tensor type against an actual value."""
    e, d = parse_type(ty)
    if e != tname(a):
        raise Fail("%s: type %s, value %s" % (where, ty, tname(a)))
    if d is not None and (len(d) != a.ndim or any(
            x not in (-1, y) for x, y in zip(d, a.shape))):
        raise Fail("%s: type %s, shape %s" % (where, ty, list(a.shape)))


def check_sig(sig, infos, what):
    """A signature string against (name, value) pairs."""
    try:
        l = json.loads(sig)
    except ValueError:
        raise Fail("%s signature is not JSON: %s" % (what, sig))
    if [x.get("name") for x in l] != [n for n, _ in infos]:
        raise Fail("%s signature names: %s" % (what, sig))
    for x, (n, a) in zip(l, infos):
        if MT.get(x["type"], x["type"]) != tname(a):
            raise Fail("%s signature type of %s: %s" % (what, n, sig))
        if len(x["dims"]) != a.ndim or any(
                p not in (-1, q) for p, q in zip(x["dims"], a.shape)):
            raise Fail("%s signature dims of %s (%s): %s" % (
                what, n, a.shape, sig))
    return l


# --- comparison -------------------------------------------------------------

TOL = {"f32": (2e-5, 1e-6), "f64": (1e-9, 1e-12), "f16": (4e-3, 2e-3)}


def diff(got, want, loose=1.0, where="", least=None):
    """None when got agrees with want, or what differs."""
    want = np.asarray(want)
    if got.dtype != want.dtype:
        return "%stype %s, not %s" % (where, got.dtype, want.dtype)
    if got.shape != want.shape:
        return "%sshape %s, not %s" % (where, got.shape, want.shape)
    if want.size == 0:
        return None
    k = NT.get(want.dtype)
    if k in TOL:
        rt, at = max(TOL[k], TOL.get(least, TOL[k]))
        g, w = got.astype(np.float64), want.astype(np.float64)
        fin = np.isfinite(w)
        scale = np.max(np.abs(w[fin])) if fin.any() else 1.0
        tol = loose * (rt * np.abs(w) + at + rt * 0.1 * scale)
        ok = np.where(fin, np.abs(g - w) <= tol,
                      (g == w) | (np.isnan(g) & np.isnan(w)))
    else:
        ok = got == want
    if np.all(ok):
        return None
    i = np.argwhere(~np.asarray(ok, bool).reshape(want.shape))[0]
    i = tuple(int(x) for x in i)
    return "%selement %s is %r, not %r (%d of %d differ)" % (
        where, list(i), got[i], want[i], int((~np.asarray(ok)).sum()),
        want.size)


def is_inexact(a):
    """Whether rounding may have been at work: later operators that are not
    continuous are then not comparable."""
    if a.dtype.kind != "f" or a.size == 0:
        return False
    with np.errstate(all="ignore"):
        b = a.astype(np.float64) * 256
        return not (np.all(np.abs(b) < 2**20) and np.all(b == np.round(b)))


# --- graph building ---------------------------------------------------------

class Val:
    __slots__ = ("name", "a", "kind", "inexact", "dom")

    def __init__(self, name, a, kind, inexact=False):
        self.name, self.a, self.kind = name, a, kind
        self.inexact = inexact

    @property
    def t(self):
        return tname(self.a)

    @property
    def shape(self):
        return self.a.shape

    @property
    def rank(self):
        return self.a.ndim


class Graph:
    """Grows a model node by node, with the concrete value of everything."""

    def __init__(self, s, opset=None, const_pct=None, reuse_pct=0):
        self.s = s
        self.opset = opset or s.pick([17, 13, 18, 19, 16])
        self.nodes, self.vals = [], []
        self.inputs, self.inits = [], []
        self.n = 0
        self.const_pct = (s.pick([30, 0, 60, 100])
                          if const_pct is None else const_pct)
        self.reuse_pct = reuse_pct
        self.regen = {}     # input name -> function making other data
        self.outputs = None
        self.loose = 1.0
        self.ops = []
        self.exact_only = False     # only values without rounding errors
        self.focus = None           # the value the next operator should use
        self.datadep = False    # shapes depend on data
        self.avoid = ""         # options not to use

    def name(self, p="v"):
        self.n += 1
        return "%s%d" % (p, self.n)

    def leaf(self, a, const=None, gen=None, must_const=False, dyn=True):
        """An input or an initializer holding a."""
        a = np.asarray(a)
        c = must_const or (self.s.chance(self.const_pct)
                           if const is None else const)
        if c:
            n = self.name("c")
            if self.s.chance(25):
                self.nodes.append(oh.make_node(
                    "Constant", [], [n], value=nh.from_array(a, n)))
            else:
                self.inits.append(nh.from_array(a, n))
            v = Val(n, a, "const")
        else:
            n = self.name("i")
            self.inputs.append((n, a, dyn))
            v = Val(n, a, "input")
            if gen:
                self.regen[n] = gen
        v.inexact = is_inexact(a)
        self.vals.append(v)
        return v

    def data(self, t, shape, const=None, style=None, lo=-4, hi=4, reuse=True,
             free=True, dyn=True):
        """A value of this type and shape: an earlier one or a new leaf."""
        shape = tuple(shape)
        if reuse and self.reuse_pct and self.s.chance(self.reuse_pct):
            c = [v for v in self.vals if v.t == t and v.shape == shape
                 and not (self.exact_only and v.inexact)]
            if c:
                f = self.focus
                return f if f in c and self.s.chance(70) else self.s.pick(
                    list(reversed(c)))
        st = style or self.s.pick(["quarter", "real", "int"])
        if self.exact_only and st == "real":
            st = "quarter"
        sd = self.s.draw(1 << 30)

        def gen(k=0):
            return rand(t, shape, st, sd + k * 7919, lo, hi)
        return self.leaf(gen(), const, gen if free else None, dyn=dyn)

    def any_val(self, pred):
        c = [v for v in self.vals if pred(v)]
        return self.s.pick(list(reversed(c))) if c else None

    def node(self, op, ins, nout=1, domain="", inexact=None, **attrs):
        """Adds a node; returns its outputs (values from the reference)."""
        outs = [self.name() for _ in range(nout)]
        names = [i.name if i is not None else "" for i in ins]
        nd = oh.make_node(op, names, outs, domain=domain, **attrs)
        a = self.eval(nd, ins)
        self.nodes.append(nd)
        self.ops.append(op)
        r = []
        for n, x in zip(outs, a):
            x = np.asarray(x)
            if x.dtype not in NT:
                raise Discard()
            v = Val(n, x, "node")
            v.inexact = bool(inexact) or is_inexact(x) or (v.t in FLOATS and any(
                i is not None and i.inexact for i in ins))
            r.append(v)
        self.vals += r
        return r[0] if nout == 1 else r

    def eval(self, nd, ins):
        vs = [i for i in ins if i is not None]
        vi, seen = [], set()
        for v in vs:
            if v.name not in seen:
                seen.add(v.name)
                vi.append(oh.make_tensor_value_info(
                    v.name, oh.np_dtype_to_tensor_dtype(v.a.dtype),
                    list(v.shape)))
        g = oh.make_graph([nd], "g", vi, [
            oh.make_tensor_value_info(o, 0, None) for o in nd.output])
        m = oh.make_model(g, opset_imports=[oh.make_opsetid("", self.opset)],
                          ir_version=8)
        return reference(m, {v.name: v.a for v in vs})

    def model(self, outs, dyn_pct=None, syms=None):
        """ModelProto with these outputs."""
        s = self.s
        dyn = s.pick([0, 40, 100]) if dyn_pct is None else dyn_pct
        syms = s.pick([0, 1, 2]) if syms is None else syms
        ins = []
        self.dyn = False
        for n, a, d in self.inputs:
            dims = []
            for k, x in enumerate(a.shape):
                # Operator fusion reads past an innermost dimension that
                # turns out to be one: a known finding.
                if x == 1 and k == a.ndim - 1 and pypbt.known(
                        "fused-dynamic-broadcast"):
                    dims.append(1)
                elif d and dyn and s.chance(dyn):
                    self.dyn = True
                    dims.append([None, "%s_%d" % (n, k), "S%d" % x][syms])
                else:
                    dims.append(x)
            ins.append(oh.make_tensor_value_info(
                n, oh.np_dtype_to_tensor_dtype(a.dtype), dims))
        ot = []
        for v in outs:
            et = oh.np_dtype_to_tensor_dtype(v.a.dtype)
            k = s.draw(3)
            if k == 0:
                ot.append(oh.make_tensor_value_info(v.name, et, None))
            else:
                ot.append(oh.make_tensor_value_info(
                    v.name, et, [None if self.dyn or self.datadep else x
                              for x in v.shape]))
        g = oh.make_graph(self.nodes, "main_graph", ins, ot,
                          initializer=self.inits)
        self.outs = outs
        m = oh.make_model(
            g, opset_imports=[oh.make_opsetid("", self.opset)], ir_version=8)
        return m

    def sets(self, model):
        """Input sets, each with what the reference says: the generated data,
        the same again, and other data."""
        base = [a for _, a, _ in self.inputs]
        want = [v.a for v in self.outs]
        r = [(base, want)]
        if self.ops[1:]:
            return r * 2 if self.s.chance(20) else r
        if self.s.chance(30) and base:
            alt = [self.regen[n](1) if n in self.regen else a
                   for n, a, _ in self.inputs]
            try:
                w2 = reference(model, {n: x for (n, _, _), x in zip(
                    self.inputs, alt)})
                r += [(alt, w2), (base, want)]
            except Discard:
                pass
        return r


def reference(m, feeds):
    try:
        return ReferenceEvaluator(m, new_ops=cc_ref.OPS).run(
            None, feeds)
    except Exception as e:
        if os.environ.get("CC_REF"):
            raise
        raise Discard()


def rand(t, shape, style, seed, lo=-4, hi=4):
    r = np.random.default_rng(seed)
    dt = DT[t]
    if t == "bool":
        return r.integers(0, 2, shape).astype(bool)
    if t in FLOATS:
        if style == "quarter":
            return (r.integers(int(lo * 4), int(hi * 4) + 1, shape) / 4
                    ).astype(dt)
        if style == "int":
            return r.integers(math.ceil(lo), math.floor(hi) + 1,
                              shape).astype(dt)
        return r.uniform(lo, hi, shape).astype(dt)
    ii = np.iinfo(dt)
    if style == "wide":
        return r.integers(ii.min, ii.max, shape, dtype=dt, endpoint=True)
    return r.integers(max(ii.min, math.ceil(lo)),
                      min(ii.max, math.floor(hi)) + 1, shape).astype(dt)


def shape_of(s, rmin=0, rmax=4, dmax=5, total=400, zero=0):
    f = getattr(s, "focus", None)
    if f is not None and rmin <= f.rank <= rmax and f.a.size <= total and \
            f.a.size and s.chance(75):
        return list(f.shape)
    r = s.range(rmin, rmax)
    out, n = [], 1
    for _ in range(r):
        d = s.pick([2, 3, 1, 4, 5, 7, 8, 16, 17, 33][:10 if r <= 2 else 5])
        if zero and s.chance(zero):
            d = 0
        if n * max(d, 1) > total:
            d = 1
        n *= max(d, 1)
        out.append(d)
    return out


def describe(m, args, sets):
    t = onnx.printer.to_text(m)
    return "%s\nargs %s\n%s" % (
        t, " ".join(args),
        "\n".join("set %d: %s" % (i, "; ".join(
            np.array2string(a, threshold=40, max_line_width=10000)
            .replace("\n", "") + ":" + tname(a) for a in st))
            for i, st in enumerate(sets)))


OPTS = [[], ["-O3"], ["-O3", "-march=x86-64"],
        ["-O3", "-march=x86-64", "--enable-fast-math"],
        ["-O1"], ["-O2"], ["-O3", "--disable-simd"],
        ["-O3", "--onnx-hybrid-pass=false"],
        ["-O0", "--onnx-hybrid-pass=false", "--repeatOnnxTransform=2"],
        ["--disable-recompose"], ["--disable-constant-prop"],
        ["-O3", "--enable-conv-opt-pass=false"],
        ["-O3", "--disable-conv-to-matmul"],
        ["-O3", "--disable-krnl-op-fusion"],
        ["-O3", "--disable-fused-op"]]


def check_model(s, g, m, args, extra=""):
    if not m.graph.output:
        raise Discard()
    sets = g.sets(m)
    ins = [x for x, _ in sets]
    s.note(describe(m, args, ins[:2]))
    r = compile_run(m, ins, args)
    if not r.ok:
        # The size of the output is declared, or was inferred from an operator
        # that is removed as it does nothing.
        if "--onnx-hybrid-pass=false" in args and \
                "is incompatible with function result type" in r.why() and \
                pypbt.known("legacy-output-sizes"):
            raise Discard()
        raise Fail("%s%s" % (extra, r.why()))
    if len(r.runs) != len(sets):
        raise Fail("%d runs" % len(r.runs))
    # Rounding of a narrower type stays when a Cast widens it.
    least = None
    if any(n.op_type == "Cast" for n in g.nodes):
        least = max((v.t for v in g.vals if v.kind == "node" and v.inexact and
                     v.t in TOL), key=TOL.get, default=None)
    for k, (outs, (_, want)) in enumerate(zip(r.runs, sets)):
        if outs is None:
            raise Fail("run %d gave no result" % k)
        if len(outs) != len(want):
            raise Fail("%d outputs, not %d" % (len(outs), len(want)))
        for i, (o, w) in enumerate(zip(outs, want)):
            d = diff(o, w, g.loose, "run %d output %d: " % (k, i),
                     least)
            if d:
                raise Fail(d)
    return r
