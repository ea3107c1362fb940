"""T02: utils/RunONNXModel.py (and the comparison of om_pyrt) with a compiler
and sessions whose results are known: what is compiled, what is loaded, which
inputs the model gets, and which results are accepted."""
import builtins
import contextlib
import io
import json
import math
import os
import shutil
import sys
import tempfile
import types
from fractions import Fraction

import numpy as np

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)),
                                "..", "lib"))
from pypbt import check, main  # noqa

REPO = os.environ.get("VERIF_REPO", "/repo")


def compiled(p):
    p = os.path.join(REPO, p)
    with open(p) as f:
        return compile(f.read(), p, "exec")


RUN = compiled("utils/RunONNXModel.py")
UTL = compiled("src/Runtime/python/om_pyrt/src/om_pyrt/utils.py")
import onnx  # noqa
from onnx import numpy_helper  # noqa

FLOATS = ["float32", "float64", "float16"]
INTS = ["int64", "int32", "int16", "int8", "uint64", "uint32", "uint16",
        "uint8"]


# -- the oracle of comparisons -------------------------------------------------
def close(a, r, atol, rtol, exact_ints=False):
    """True, False or None (too near to the limit to say)."""
    if a.dtype == bool:
        return bool(a == r)
    if a.dtype.kind in "iu":
        if exact_ints:
            return int(a) == int(r)
        d, m = abs(int(a) - int(r)), abs(int(r))
    else:
        x, y = float(a), float(r)
        if math.isnan(x) or math.isnan(y):
            return math.isnan(x) and math.isnan(y)
        if math.isinf(x) or math.isinf(y):
            return x == y
        d, m = abs(Fraction(x) - Fraction(y)), abs(Fraction(y))
    lim = Fraction(float(atol)) + Fraction(float(rtol)) * m
    if d == 0:
        return True
    slack = {"float16": Fraction(1, 20), "float32": Fraction(1, 1000)}.get(
        a.dtype.name, Fraction(1, 10**7))
    if d > 0 and abs(d - lim) <= slack * (lim + d):
        return None
    return d <= lim


def verdict(outs, refs, atol, rtol, exact_ints=False, dtype=False):
    if len(outs) != len(refs):
        return False
    res = True
    for a, r in zip(outs, refs):
        if a.shape != r.shape or (dtype and a.dtype != r.dtype):
            return False
        for i in np.ndindex(a.shape):
            c = close(a[i], r[i], atol, rtol, exact_ints)
            if c is False:
                return False
            if c is None:
                res = None
    return res


# -- generated arrays ----------------------------------------------------------
def shape(s):
    sh = [s.weighted([1, 5, 4, 3]) for _ in range(s.weighted([1, 5, 4, 1]))]
    return tuple(sh)


def value(s, dt):
    if dt == "bool":
        return s.chance(50)
    if dt in INTS:
        ii = np.iinfo(dt)
        return s.pick([0, 1, 2, 5, 100, ii.max, ii.min, ii.max - 1,
                       ii.max // 2]) if s.chance(60) else s.draw(100)
    if s.chance(4):
        return s.pick([math.inf, -math.inf, math.nan])
    v = s.range(-400, 400) / 16.0
    if s.chance(10):
        v *= s.pick([1e-4, 1e3])
    return v


def array(s, dt=None, sh=None):
    dt = dt or s.pick(FLOATS + ["float32", "float32", "bool"] + INTS)
    sh = sh if sh is not None else shape(s)
    n = int(np.prod(sh, dtype=int))
    return np.array([value(s, dt) for _ in range(n)],
                    dtype=dt).reshape(sh)


def perturb(s, a, atol, rtol):
    """An array that is close to a, or not."""
    a = np.array(a)
    k = s.weighted([3, 8, 1, 1])
    if k == 0:
        return a
    if k == 2:
        # Another shape: more, fewer, or the same elements.
        b = array(s, a.dtype.name)
        if a.ndim and s.chance(60):
            b = a[:-1] if s.chance(50) and len(a) else np.concatenate([a, a])
        elif s.chance(50):
            b = a.reshape((1,) + a.shape)
        return b
    if k == 3:
        return array(s, a.dtype.name, a.shape)
    if not a.size:
        return a
    f = a.reshape(-1)
    for _ in range(1 + s.draw(2)):
        i = s.draw(a.size)
        if a.dtype == bool:
            f[i] = not f[i]
        elif a.dtype.kind in "iu":
            ii = np.iinfo(a.dtype)
            lim = int(atol + rtol * abs(int(f[i])))
            d = s.pick([1, lim, lim + 1, 2 * lim + 2, 100, 255, ii.max])
            d = -d if s.chance(50) else d
            f[i] = min(max(int(f[i]) + d, ii.min), ii.max)
        elif not math.isfinite(f[i]):
            f[i] = s.pick([0, math.inf, -math.inf, math.nan])
        elif s.chance(6):
            f[i] = s.pick([math.inf, -math.inf, math.nan])
        else:
            lim = atol + rtol * abs(float(f[i]))
            d = lim * s.pick([0.5, 0.8, 1.25, 2, 100])
            v = float(f[i]) + (-d if s.chance(50) else d)
            f[i] = min(max(v, -60000.0), 60000.0)
    return f.reshape(a.shape)


# -- the world of one case -----------------------------------------------------
class Model:
    def __init__(self, s, k, d):
        self.name = "m%d" % k
        self.file = os.path.join(d, self.name + s.pick(
            [".onnx", ".onnx", ".mlir", ".onnxtext"]))
        with open(self.file, "w") as f:
            f.write(self.name)
        p = s.perm(4)
        self.ins = ["abcd"[i] for i in p[:1 + s.draw(4)]]
        self.outs = ["o%d" % i for i in range(1 + s.draw(3))]
        self.consts = s.chance(50)
        self.versions = []


W = None


class Compiler:
    def compile(self, model, flags, log_file_name="", **kw):
        W.compiled += 1
        a = flags.split()
        o = a.index("-o")
        path = a[o + 1]
        m = W.byfile[model]
        check(os.path.realpath(path).startswith(os.path.realpath(
            tempfile.gettempdir())), "output goes to %s" % path)
        v = len(m.versions) - 1
        with open(path + ".so", "w") as f:
            json.dump({"model": m.name, "version": v,
                       "flags": a[:o] + a[o + 2:],
                       "base": os.path.basename(path)}, f)
        if m.consts:
            with open(path + ".constants.bin", "w") as f:
                f.write("%s %d" % (m.name, v))
        if log_file_name:
            with open(log_file_name, "w") as f:
                f.write("log of %s %d" % (m.name, v))
        return path + ".so"


class Session:
    def __init__(self, lib, tag="", **kw):
        with open(lib) as f:
            self.so = json.load(f)
        self.m = W.models[self.so["model"]]
        self.lib = lib
        W.opened.append(self.so)

    def input_signature(self):
        return json.dumps([{"type": "f32", "dims": [2], "name": n}
                           for n in self.m.ins])

    def output_signature(self):
        return json.dumps([{"type": "f32", "dims": [2], "name": n}
                           for n in self.m.outs])

    def compilation_info(self):
        return "{}"

    def print_instrumentation(self):
        W.instr += 1

    def fill_input_debug(self, **kw):
        kw.pop("verbose", None)
        W.filled.append(kw)
        g = np.random.default_rng(abs(int(kw["seed"])))
        W.given = [g.standard_normal((2, 2)).astype("float32")
                   for _ in self.m.ins]
        return list(W.given)

    def run(self, inputs):
        W.seen.append([np.array(x) for x in inputs])
        if self.m.consts:
            p = os.path.join(os.environ.get("OM_CONSTANT_PATH", "?"),
                             self.so["base"] + ".constants.bin")
            t = open(p).read() if os.path.exists(p) else "nothing"
            check(t == "%s %d" % (self.m.name, self.so["version"]),
                  "the model finds '%s' in %s" % (t, p))
        return [np.array(x) for x in self.m.versions[self.so["version"]]]


def same(a, b):
    return (a.dtype == b.dtype and a.shape == b.shape and
            np.ascontiguousarray(a).tobytes() ==
            np.ascontiguousarray(b).tobytes())


class World:
    def __init__(self, s, d):
        global W
        W = self
        self.s, self.d = s, d
        self.models, self.byfile = {}, {}
        self.tol = (s.pick([0.01, 0.5, 1e-4, 0.0, 3]),
                    s.pick([0.05, 0.01, 1e-3, 0.0, 0.5]))
        for k in range(1 + s.draw(3)):
            m = Model(s, k, d)
            m.versions.append([array(s) for _ in m.outs])
            self.models[m.name] = m
            self.byfile[m.file] = m
        self.saved = {}      # (dir, name) -> so record
        self.options = {}    # dir -> text of compiler_option.txt
        self.refs = {}       # dir -> (inputs, outputs) by index
        home = os.path.join(d, "home")
        os.makedirs(home + "/bin")
        os.makedirs(home + "/lib")
        open(home + "/bin/onnx-mlir", "w").close()
        os.environ["ONNX_MLIR_HOME"] = home

    def module(self):
        rt = types.ModuleType("PyRuntime")
        rt.OMExecutionSession = Session
        cc = types.ModuleType("PyOMCompile")
        cc.OMCompile = Compiler
        sys.modules.update(PyRuntime=rt, PyOMCompile=cc, onnxmlir=None)
        m = types.ModuleType("RunONNXModel")
        exec(RUN, m.__dict__)
        return m

    def touch(self):
        """The model changes: its results do, a little or a lot."""
        s = self.s
        m = self.models[s.pick(sorted(self.models))]
        m.versions.append([perturb(s, a, *self.tol) for a in m.versions[-1]])
        s.note("%s changes; " % m.name)

    def run(self):
        s = self.s
        m = self.models[s.pick(sorted(self.models))]
        a, ok = [], True
        flags = s.pick(["", "", "-O3", "-O1 --mcpu=z16", "-O1 -O3",
                        "-O3 -O1"])
        name = s.pick(["model", "model", "foo"])
        if name != "model":
            a += ["-o", name]
        mode = s.weighted([4, 2, 3, 3])
        dr = os.path.join(self.d, "save%d" % s.draw(2))
        given = True         # whether --model is given
        if mode:
            if mode == 2 and s.chance(50):
                given = False
            a += [["", "--save-model", "--load-model", "--cache-model"][mode],
                  dr]
        if given:
            a += ["-m", m.file] if s.chance(50) else ["--model=" + m.file]
        if mode == 3 and (dr, name) in self.saved:
            s.label("cached")
        n, w = 1 + s.draw(3), s.draw(3)
        atol, rtol = self.tol
        conf = {}
        for key, opt, v, dflt in (("n_iteration", "-n", n, 1),
                                  ("warmup", "-w", w, 0),
                                  ("compile_args", "--compile-args", flags,
                                   ""),
                                  ("atol", "--atol", atol, None),
                                  ("rtol", "--rtol", rtol, None)):
            k = s.weighted([3, 1, 1])
            if k == 1:
                conf[key] = v
                continue
            if k == 2:
                conf[key] = s.pick([7, 9])      # overridden
            if v == dflt and k == 0:
                continue
            a += [opt + "=" + str(v)] if opt[1] == "-" else [opt, str(v)]
        if conf:
            c = os.path.join(self.d, "cfg.yaml")
            with open(c, "w") as f:
                f.write("# defaults\n")
                for key, v in conf.items():
                    f.write("%s : %s\n" % (key, v))
            a += ["--config-file", c]
            s.label("config file")
        log = s.chance(15)
        if log:
            a.append("--write-compile-log=" + os.path.join(self.d, "c.log"))
        only = s.chance(8)
        if only:
            a.append("-C")
        if s.chance(20):
            a += ["--print-input", "--print-output", "--print-signatures"]

        # What is compiled and loaded.
        load = mode == 2 or (mode == 3 and (dr, name) in self.saved)
        save = mode == 1 or (mode == 3 and not load)
        want_compile = 0
        so = None
        if load:
            so = self.saved.get((dr, name))
            if dr in self.options and flags:
                if not given or self.options[dr] != (m.file, flags):
                    ok = False
                    s.label("other options")
            if so is None:
                ok = False
        else:
            want_compile = 1
            so = {"model": m.name, "version": len(m.versions) - 1,
                  "flags": flags.split(), "base": name}
            if save:
                self.saved[dr, name] = so
                self.options[dr] = (m.file, flags)
        if mode == 3 and not given:
            ok = False
        if only and load and so is None:
            return
        runs = ok and not only

        # The inputs.
        src = s.weighted([5, 4, 2])
        ref = os.path.join(self.d, "ref%d" % s.draw(2))
        ins = refs = None
        mm = self.models[so["model"]] if so else m
        fill = {}
        if src == 1:
            r = self.refs.get(ref)
            if r is None or len(r[0]) < len(mm.ins) or len(r[1]) < len(
                    mm.outs):
                src = 0
            else:
                a += ["--load-ref", ref]
                ins = [r[0][i] for i in range(len(mm.ins))]
                refs = [r[1][i] for i in range(len(mm.outs))]
        if src == 2:
            # A new name: compiled modules are cached by time and size.
            self.nfile = getattr(self, "nfile", 0) + 1
            py = os.path.join(self.d, "arrays%d.py" % self.nfile)
            ins = [array(s) for _ in mm.ins]
            refs = [perturb(s, x, atol, rtol) for x in mm.versions[
                so["version"] if so else -1]]
            np.savez(self.d + "/a.npz", *(ins + refs))
            with open(py, "w") as f:
                f.write("import numpy as np\nz = np.load(%r)\n"
                        "inputs = [z['arr_%%d' %% i] for i in range(%d)]\n"
                        "outputs = [z['arr_%%d' %% i] for i in range(%d, %d)]"
                        "\n" % (self.d + "/a.npz", len(ins), len(ins),
                                len(ins) + len(refs)))
            a += ["--load-ref-from-numpy", py]
        if src == 0:
            fill = dict(shape_info="", value_info="", default_lower_bound="",
                        default_upper_bound="", seed=42)
            for k, o, v in (("shape_info", "--shape-info", "0:2x2"),
                            ("value_info", "--input-value", "0:val1"),
                            ("default_lower_bound", "--lower-bound",
                             "float32:-2"),
                            ("default_upper_bound", "--upper-bound",
                             "float32:2"),
                            ("seed", "--seed", s.draw(1000))):
                if s.chance(20):
                    a.append("%s=%s" % (o, v))
                    fill[k] = v
        save_ref = None
        if s.chance(40):
            save_ref = os.path.join(self.d, "ref%d" % s.draw(2))
            if save_ref == ref and src == 1:
                save_ref = None
            else:
                a += ["--save-ref", save_ref]
        outs = mm.versions[so["version"]] if so else None
        verify = None
        if refs is not None and s.chance(80):
            a += ["--verify=ref"]
            k = s.weighted([5, 1])
            if k == 0:
                a.append("--verify-every-value")
                if runs:
                    verify = verdict(outs, refs, atol, rtol)
            if k == 1:
                if not self.softmax(a, outs, refs):
                    a.pop()         # not verified
                elif runs:
                    ax = int(a[-1].split("=")[1])
                    verify = verdict(
                        [sm(x, ax) for x in outs], [sm(x, ax) for x in refs],
                        atol, rtol)
        feed = None
        if s.chance(20):
            # Through the interface of Python, with names.
            vals = {x: array(s) for x in mm.ins}
            p = s.perm(len(mm.ins))
            feed = {mm.ins[i]: vals[mm.ins[i]] for i in p}
            if s.chance(30):
                feed["other"] = array(s)
            ins = [vals[x] for x in mm.ins]
            miss = s.chance(10)
            if miss:
                feed["other"] = array(s)    # {} means no feed
                del feed[mm.ins[-1]]
                runs = False
                # A missing name is found when the inputs are taken.
                ok = ok and only
            elif s.chance(30):
                feed = list(ins)
            s.label("fed")

        # Do it.
        self.compiled = self.instr = 0
        self.seen, self.opened, self.filled, self.given = [], [], [], None
        s.note("run %s feed=%s; " % (" ".join(a), feed is not None))
        status, res, why = 0, None, ""
        argv, sys.argv = sys.argv, ["RunONNXModel.py"] + a
        err = io.StringIO()
        try:
            with contextlib.redirect_stdout(io.StringIO()), \
                    contextlib.redirect_stderr(err):
                mod = self.module()
                mod.handle_args()
                # What exit() is depends on how Python was started.
                wrapper = mod.import_driver()
                sess = mod.InferenceSession(session_wrapper=wrapper)
                names = mm.outs if s.chance(30) else None
                res = sess.run_performance_test(names, feed)
                if names:
                    check(sorted(res) == sorted(names), "names %s" % sorted(
                        res))
                    res = [res[x] for x in names]
        except SystemExit as e:
            c = e.code
            status = 0 if c is None else c if isinstance(c, int) else 1
            why = "exit " + err.getvalue()[-300:]
        except AssertionError as e:
            status, why = 1, "assertion: " + str(e)[:300]
        except (TypeError, RuntimeError, IndexError, AttributeError) as e:
            status, why = 1, "%s: %s" % (type(e).__name__, str(e)[:300])
        finally:
            sys.argv = argv

        # Judge.
        if not ok:
            s.label("refused")
            check(status != 0, "status 0 (%s), should fail" % why)
            check(not self.seen, "the model ran, should have been refused")
            return
        check(self.compiled == want_compile, "%d compilations, should be %d "
              "(%s)" % (self.compiled, want_compile, why))
        if save:
            self.check_saved(dr, name, so, mm, log)
        if only:
            check(status == 0, "-C: status %d (%s)" % (status, why))
            check(not self.seen, "-C ran the model")
            return
        if not runs:
            check(status != 0, "status 0 with an input that is missing")
            return
        check(self.opened == [so], "opened %s, should be %s (%s)" % (
            self.opened, so, why))
        check(len(self.seen) == n + w, "%d runs, should be %d + %d (%s)" % (
            len(self.seen), w, n, why))
        check(self.instr == n + w, "instrumentation")
        if feed is None and src == 0:
            check(self.filled == [fill], "inputs were made with %s, not %s" %
                  (self.filled, fill))
            ins = self.given
        for x in self.seen:
            check(len(x) == len(ins) and all(map(same, x, ins)),
                  "the model got other inputs")
        if save_ref:
            self.check_ref(save_ref, ins, outs)
            s.label("references saved")
        if verify is None:
            return
        s.nontrivial()
        s.label("accepted" if verify else "rejected")
        if verify:
            check(status == 0, "results within tolerance are refused: %s" %
                  why)
            check(len(res) == len(outs) and all(map(same, res, outs)),
                  "the results returned are not those of the model")
        else:
            check(status != 0, "results that differ are accepted")

    def softmax(self, a, outs, refs):
        s = self.s
        good = outs is not None and all(
            x.dtype.name in ("float32", "float64") and x.ndim and
            np.isfinite(x).all() and abs(x).max(initial=0) < 50 and
            0 not in x.shape for x in list(outs) + list(refs)) and all(
            x.shape == y.shape for x, y in zip(outs, refs))
        if not good:
            return False
        a.append("--verify-with-softmax=%d" % s.pick([-1, 0]))
        s.label("softmax")
        return True

    def check_saved(self, dr, name, so, m, log):
        p = os.path.join(dr, name + ".so")
        check(os.path.exists(p), "%s was not saved" % p)
        check(json.load(open(p)) == so, "another library was saved")
        if m.consts:
            p = os.path.join(dr, name + ".constants.bin")
            check(os.path.exists(p), "%s was not saved" % p)
            check(open(p).read() == "%s %d" % (m.name, so["version"]),
                  "other constants were saved")
        if log:
            check(open(os.path.join(dr, "c.log")).read() == "log of %s %d" % (
                m.name, so["version"]), "log")

    def check_ref(self, dr, ins, outs):
        new = [dict(), dict()]
        for kind, xs, t in (("input", ins, 0), ("output", outs, 1)):
            for i, x in enumerate(xs):
                p = onnx.TensorProto()
                f = os.path.join(dr, "%s_%d.pb" % (kind, i))
                check(os.path.exists(f), "%s was not saved" % f)
                with open(f, "rb") as g:
                    p.ParseFromString(g.read())
                y = numpy_helper.to_array(p)
                check(same(x, y), "%s is %s %s %s, should be %s %s %s" % (
                    f, y.dtype, y.shape, y.tolist(), x.dtype, x.shape,
                    x.tolist()))
                new[t][i] = np.array(x)
        old = self.refs.get(dr, ({}, {}))
        for k in range(2):
            o = dict(old[k])
            o.update(new[k])
            new[k] = o
        self.refs[dr] = (new[0], new[1])


def sm(x, ax):
    e = np.exp(x.astype("float64"))
    return (e / e.sum(axis=ax, keepdims=True)).astype(x.dtype)


def scenario(s):
    d = tempfile.mkdtemp(prefix="pyrun")
    old, cwd = dict(os.environ), os.getcwd()
    td = tempfile.tempdir
    try:
        tempfile.tempdir = os.path.join(d, "tmp")
        os.makedirs(tempfile.tempdir)
        os.chdir(d)
        w = World(s, d)
        for _ in range(1 + s.draw(7)):
            w.run() if s.chance(75) else w.touch()
    finally:
        os.chdir(cwd)
        tempfile.tempdir = td
        os.environ.clear()
        os.environ.update(old)
        shutil.rmtree(d, ignore_errors=True)


builtins.exit = sys.exit
np.seterr(all="ignore")


def compare(s):
    """om_pyrt.utils.compare_result."""
    m = types.ModuleType("om_utils")
    exec(UTL, m.__dict__)
    atol = s.pick([0.01, 0.5, 1e-4, 0.0, 3])
    rtol = s.pick([0.05, 0.01, 1e-3, 0.0, 0.5])
    refs = [array(s) for _ in range(s.draw(4))]
    outs = [perturb(s, x, atol, rtol) for x in refs]
    k = s.draw(12)
    if k == 0:
        outs.append(array(s))
    elif k == 1 and outs:
        outs.pop()
    elif k == 2 and outs:
        outs[0] = outs[0].astype(s.pick(FLOATS + INTS))
    s.note("atol %g rtol %g actual %s reference %s" % (
        atol, rtol, [(x.dtype.name, x.tolist()) for x in outs],
        [(x.dtype.name, x.tolist()) for x in refs]))
    want = verdict(outs, refs, atol, rtol, exact_ints=True, dtype=True)
    if want is None:
        return
    if any(x.size for x in outs):
        s.nontrivial()
    s.label("same" if want else "different")
    with contextlib.redirect_stdout(io.StringIO()):
        r = m.compare_result(outs, refs, atol, rtol, s.draw(2))
    check(r is want, "compare_result says %s, should be %s" % (r, want))
    # Through files, and the runs.
    class Sess:
        def __init__(self):
            self.seen = []

        def run(self, x):
            self.seen.append(x)
            return outs

        def print_instrumentation(self):
            pass
    d = tempfile.mkdtemp(prefix="pynpy")
    try:
        files = []
        for i, x in enumerate(refs):
            f = os.path.join(d, "%d.npy" % i)
            np.save(f, x if s.chance(60) else x.astype(
                x.dtype.newbyteorder(">")))
            files.append(f)
        with contextlib.redirect_stdout(io.StringIO()):
            back = m.read_npy_files(files)
        check(len(back) == len(refs) and all(map(same, back, refs)),
              "arrays read back differ")
        ss = Sess()
        w, n = s.draw(3), 1 + s.draw(4)
        with contextlib.redirect_stdout(io.StringIO()):
            o = m.run_model_with_input_output_files(
                ss, files, files if s.chance(50) else None, w, n)
        check(o is outs, "other outputs are returned")
        check(len(ss.seen) == w + n, "%d runs" % len(ss.seen))
        check(all(len(x) == len(refs) and all(map(same, x, refs))
                  for x in ss.seen), "the model got other inputs")
    finally:
        shutil.rmtree(d, ignore_errors=True)


PROPS = {"runmodel": (scenario, None), "compare": (compare, None)}

if __name__ == "__main__":
    main(PROPS)
