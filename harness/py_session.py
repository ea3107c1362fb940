"""S02: PyRuntime sessions: numpy arrays in, numpy arrays out.
argv: <PyRuntimeC.so> <pymodel.so> <repo> then the pbt options."""
import ctypes
import gc
import importlib.util
import os
import sys
import warnings

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)),
                                "../lib"))
from pypbt import Discard, Fail, Src, check, main  # noqa: E402

EXT, MODEL, REPO = sys.argv[1:4]
import numpy as np  # noqa: E402

G = {}


def load(name, path):
    spec = importlib.util.spec_from_file_location(name, path)
    m = importlib.util.module_from_spec(spec)
    sys.modules[name] = m
    spec.loader.exec_module(m)
    return m


class MallInfo(ctypes.Structure):
    _fields_ = [(n, ctypes.c_size_t) for n in (
        "arena", "ordblks", "smblks", "hblks", "hblkhd", "usmblks",
        "fsmblks", "uordblks", "fordblks", "keepcost")]


def setup():
    if G:
        return
    warnings.simplefilter("ignore")
    load("PyRuntimeC", EXT)
    G["rt"] = load("PyRuntime", os.path.join(
        REPO, "src/Runtime/python/PyRuntime.py"))
    libc = ctypes.CDLL(None)
    libc.mallinfo2.restype = MallInfo
    G["libc"] = libc


def used():
    gc.collect()
    m = G["libc"].mallinfo2()
    return m.uordblks + m.hblkhd


DT = ["float32", "int64", "float64", "bool", "int8", "uint8", "int16",
      "uint16", "int32", "uint32", "uint64", "float16", "complex64",
      "complex128", "longlong", "object"]
STR = ["", "a", "onnx", "\u00e9t\u00e9", "\u65e5\u672c", "x y", "0" * 40,
       "\U0001f600"]


def fill(s, dt, n):
    if dt == "object":
        a = np.empty(n, dtype=object)
        for i in range(n):
            a[i] = s.pick(STR)
        return a
    d = np.dtype(dt)
    raw = bytearray()
    r = Src(seed=s.draw(1 << 30))
    for _ in range((n * d.itemsize + 7) // 8):
        raw += (r.bits()).to_bytes(8, "little")
    if dt == "bool":
        raw = bytes(b & 1 for b in raw)
    return np.frombuffer(bytes(raw[:n * d.itemsize]), dtype=d).copy()


def make(s, dt=None, big=False):
    dt = dt or s.pick(DT)
    rank = s.weighted([10, 30, 35, 15, 10])
    shape = [s.weighted([4, 20, 30, 30, 20]) for _ in range(rank)]
    if big:
        shape = [64, 32]
    lay = s.weighted([40, 12, 12, 12, 12, 12])
    n = int(np.prod(shape)) if shape else 1
    if lay == 0:
        a = fill(s, dt, n).reshape(shape)
    elif lay == 1:
        a = np.asfortranarray(fill(s, dt, n).reshape(shape))
    elif lay == 2:
        a = fill(s, dt, n).reshape(shape[::-1]).transpose()
    elif lay == 3:
        st = [1 + s.draw(3) for _ in shape]
        full = [x * k for x, k in zip(shape, st)]
        m = int(np.prod(full)) if full else 1
        a = fill(s, dt, m).reshape(full)[(...,) + tuple(
            slice(None, None, k) for k in st)]
    elif lay == 4:
        a = fill(s, dt, n).reshape(shape)[(...,) + tuple(
            slice(None, None, -1) for _ in shape)]
    else:
        if not shape:
            a = fill(s, dt, 1).reshape(())
        else:
            b = list(shape)
            b[s.draw(len(b))] = 1
            m = int(np.prod(b))
            a = np.broadcast_to(fill(s, dt, m).reshape(b), shape)
    a = np.asarray(a)
    if s.chance(25):
        a.flags.writeable = False
    s.note("%s%s/%d%s " % (dt, list(a.shape), lay,
                           "" if a.flags.writeable else "r"))
    if lay and a.size > 1:
        s.label("non-contiguous layout")
    return a


def same(a, b):
    if a.dtype == object or b.dtype == object:
        return (a.dtype == b.dtype and a.shape == b.shape and all(
            type(y) is str and x == y
            for x, y in zip(a.ravel().tolist(), b.ravel().tolist())))
    return (a.dtype == b.dtype and a.shape == b.shape
            and a.tobytes() == b.tobytes())


def prop_pysession(s):
    OM = G["rt"].OMExecutionSession
    lib = ctypes.CDLL(MODEL)
    modes = (ctypes.c_int * 16).in_dll(lib, "verif_mode")
    iv = {k: ctypes.c_int.in_dll(lib, "verif_" + k)
          for k in ("fail", "sig", "prints", "clobber", "badtype")}
    for v in iv.values():
        v.value = 0
    sess = OM(MODEL)
    check(sess.get_shared_lib_path() == MODEL, "path")
    rev = False
    kept = []     # outputs of earlier runs and what they must still be
    kinds = set()
    nontriv = False

    def keep_ok(when):
        for o, w in kept:
            check(same(o, w), "an output of an earlier run changed %s: %r, "
                  "was %r" % (when, o, w))

    for _ in range(1 + s.draw(6)):
        op = s.weighted([50, 10, 8, 8, 10, 8, 6])
        kinds.add(op)
        if op == 0:
            n = 1 + s.draw(3)
            ins = [make(s) for _ in range(n)]
            orig = [a.copy() for a in ins]
            alias = []
            for i in range(n):
                m = s.weighted([50, 15, 20, 15])
                # an alias of a constant or of strings is not representable
                if m == 3 and (i == 0 or modes[i - 1] == 2
                               or ins[i - 1].dtype == object
                               or alias[-1] is not None):
                    m = 0
                if ins[i].dtype == object:
                    m = 0
                modes[i] = m
                alias.append(i - 1 if m == 3 else None)
            dbg = s.draw(4)
            iv["clobber"].value = 1 if s.chance(15) else 0
            s.note("run%d modes=%s " % (dbg, list(modes[:n])))
            p0 = iv["prints"].value
            if dbg == 0 or dbg == 3:
                out = sess.run(ins)
            else:
                out = sess.run_debug(ins, with_signal_handler=dbg == 2,
                                     force_output_data_copy=bool(s.draw(2)))
            check(iv["prints"].value == p0 + 1, "instrumentation printed %d "
                  "times" % (iv["prints"].value - p0))
            want = [orig[i - 1] if alias[i] is not None else orig[i]
                    for i in range(n)]
            if rev:
                want = want[::-1]
            check(len(out) == n, "%d outputs" % len(out))
            for i, (o, w) in enumerate(zip(out, want)):
                w = np.ascontiguousarray(w).reshape(w.shape)
                if w.dtype == np.dtype("longlong"):
                    w = w.astype("int64")
                check(isinstance(o, np.ndarray) and same(o, w),
                      "output %d is %r, expected %r" % (i, o, w))
                check(o.flags.c_contiguous and o.flags.writeable,
                      "output %d is not a writeable C array" % i)
                for a in ins:
                    check(not np.may_share_memory(o, a) or o.size == 0,
                          "an output shares the memory of an input")
            if not iv["clobber"].value:
                for a, b in zip(ins, orig):
                    check(same(a, b), "run changed an input")
            else:
                for a, b in zip(ins, orig):
                    if not a.flags.writeable:
                        check(same(a, b), "run changed a read-only input")
                        s.label("model writes to its inputs")
            iv["clobber"].value = 0
            keep_ok("after a run")
            if s.chance(50):
                kept.extend((o, o.copy()) for o in out)
            if any(a.size > 1 for a in ins):
                nontriv = True
            if any(x is not None for x in alias):
                s.label("outputs sharing data")
            if any(a.dtype == object for a in ins):
                s.label("string tensors")
            out = None
        elif op == 1:
            iv["fail"].value = s.pick([1, 12, 22, 95])
            s.note("fail ")
            for i in range(16):
                modes[i] = 0
            ins = [make(s)]
            try:
                sess.run(ins) if s.draw(2) else sess.run_debug(ins, s.draw(2))
                raise Fail("failed inference not reported")
            except RuntimeError as e:
                check("ERRNO %d" % iv["fail"].value in str(e),
                      "message %s" % e)
            iv["fail"].value = 0
        elif op == 2:
            iv["sig"].value = s.pick([11, 6, 8, 7, 4])
            s.note("signal%d " % iv["sig"].value)
            try:
                sess.run_debug([make(s)], with_signal_handler=True)
                raise Fail("signal not reported")
            except RuntimeError as e:
                check("signal %d" % iv["sig"].value in str(e),
                      "message %s" % e)
            iv["sig"].value = 0
            s.label("signal caught")
        elif op == 3:
            w = s.draw(3)
            s.note("ep%d " % w)
            eps = sess.entry_points()
            check(eps == ["run_main_graph_pymodel", "run_rev_pymodel"],
                  "entry points %r" % eps)
            if w < 2:
                sess.set_entry_point(eps[w])
                rev = w == 1
                check(sess.output_signature() == (
                    '["rev"]' if rev else '["o"]'), "output signature")
            else:
                try:
                    sess.set_entry_point("run_none")
                    raise Fail("unknown entry point accepted")
                except RuntimeError:
                    pass
                sess.set_entry_point(eps[0])
                rev = False
            check(sess.compilation_info() == '{"x":"\u00e9"}', "info")
        elif op == 4:  # an input or an output that cannot be represented
            s.note("unsupported ")
            for i in range(16):
                modes[i] = 0
            bad = s.pick([np.array(["a", "b"]), np.array([b"a"]),
                          np.arange(3).astype(">i4"),
                          np.array([1.0], dtype=np.longdouble),
                          np.array(["2020-01-01"], dtype="M8[D]"),
                          np.array([1, "a", None], dtype=object),
                          None])
            ins = [make(s)]
            if bad is None:
                iv["badtype"].value = s.pick([16, 17, 18, 19, 20, 21, 22])
            else:
                ins.insert(s.draw(2), bad)
            try:
                sess.run_debug(ins, False, bool(s.draw(2)))
                raise Fail("unsupported array accepted: %r" % (bad,))
            except Fail:
                raise
            except Exception as e:
                check(isinstance(e, (RuntimeError, TypeError, ValueError)),
                      "unexpected exception %r" % e)
            iv["badtype"].value = 0
        elif op == 5:
            sh = [1 + s.draw(4) for _ in range(s.draw(3))]
            mt = [("f32", "float32"), ("i64", "int64"), ("i1", "bool"),
                  ("ui8", "uint8"), ("f16", "float16"), ("f64", "float64"),
                  ("string", "object"), ("ui64", "uint64"),
                  ("i16", "int16")]
            ts = [s.pick(mt) for _ in range(s.draw(4))]
            sig = "[" + ",".join(
                '{"type":"%s","dims":%s,"name":"i"}' % (
                    t[0], str([-1] + sh).replace(" ", ""))
                for t in ts) + "]"
            s.note("fill %s " % sig)
            lib.verif_set_sig(sig.encode())
            check(sess.input_signature() == sig, "input signature")
            dim = 1 + s.draw(5)
            kw = dict(shape_info="-1:%s" % "x".join(map(str, [dim] + sh)),
                      value_info="-1:min0max5", seed=s.draw(1000))
            if not ts:
                kw = {}
            a, b = sess.fill_input_debug(**kw), sess.fill_input_debug(**kw)
            check(len(a) == len(ts), "filled %d inputs" % len(a))
            for x, y, t in zip(a, b, ts):
                check(x.dtype == np.dtype(t[1]) and list(x.shape) ==
                      [dim] + sh, "filled %s %s for %s" % (
                          x.dtype, x.shape, t[0]))
                check(same(x, y), "same seed, different data")
                v = [float(q) for q in x.ravel().tolist()]
                check(all(0 <= q <= 5 for q in v), "values %r" % v)
                if t[0] not in ("f32", "f16", "f64"):
                    check(all(q == int(q) for q in v), "values %r" % v)
            for i in range(16):
                modes[i] = 0
            if a:
                o = sess.run(a)
                for x, y in zip(o[::-1] if rev else o, a):
                    check(same(x, y), "filled inputs run")
            try:
                sess.fill_input_debug(shape_info="99:1")
                raise Fail("bad shape info accepted")
            except RuntimeError:
                pass
        else:  # repeated operations keep no memory
            how = s.draw(5)
            s.note("repeat%d " % how)
            for i in range(16):
                modes[i] = 0
            dt = s.pick(["float32", "int64", "object"])
            a = make(s, dt, big=True)
            modes[1] = s.draw(4) if dt != "object" else 0
            bad = np.array([b"a"])

            def once():
                if how == 0:
                    sess.run([a, a])
                elif how == 1:
                    sess.run_debug([a, a], False, True)
                else:
                    iv["fail"].value = 5 if how == 2 else 0
                    iv["badtype"].value = 21 if how == 4 else 0
                    try:
                        sess.run([a, bad] if how == 3 else [a, a])
                        raise Fail("no error")
                    except Fail:
                        raise
                    except Exception:
                        pass
                    iv["fail"].value = iv["badtype"].value = 0
            if how >= 2:
                modes[1] = 0
            for _ in range(3):
                once()
            u = []
            for _ in range(3):
                b = used()
                for _ in range(4):
                    once()
                u.append(used() - b)
            # each run handles at least 8 KB per array
            check(min(u) < 8000, "each run keeps about %d bytes" % (
                min(u) // 4))
            s.label("repeated runs")
        keep_ok("later")
    sess = None
    gc.collect()
    keep_ok("when the session was deleted")
    for o, w in kept:  # and can be written independently
        if o.size and o.dtype != object and s.chance(20):
            o.fill(1)
    if nontriv and len(kinds) > 1:
        s.nontrivial()


if __name__ == "__main__":
    main({"pysession": (prop_pysession, setup)}, sys.argv[4:])
