"""T03: the scripts that compile and run models for a user (onnxmlirdocker.py,
docker/onnx-mlir.py, onnxmlirrun.py), with a compiler, container engines and
sessions whose behaviour is known."""
import builtins
import contextlib
import gc
import io
import json
import os
import shlex
import shutil
import socket
import stat
import sys
import tempfile
import types

import numpy as np

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)),
                                "..", "lib"))
from pypbt import check, main  # noqa

REPO = os.environ.get("VERIF_REPO", "/repo")


def compiled(p):
    p = os.path.join(REPO, p)
    with open(p, encoding="utf-8-sig") as f:
        return compile(f.read(), p, "exec")


DOCK = compiled("src/Runtime/python/onnxmlirdocker.py")
CLI = compiled("docker/onnx-mlir.py")
ORT = compiled("utils/onnxmlirrun.py")

# The compiler: says what it was called with, and "compiles" by copying.
SH = r'''#!/bin/sh
d='%s'
printf '%%s\0' "$@" >> "$d/calls"
printf '\n' >> "$d/calls"
read -r st < "$d/status"
[ "$st" = 0 ] || { echo "error: no" >&2; case $st in k) kill -SEGV $$;; esac; exit "$st"; }
o= ; m=
while [ $# -gt 0 ]; do
  case "$1" in
    -o) o="$2"; shift;;
    -*) ;;
    *) m="$1";;
  esac
  shift
done
[ -f "$m" ] || exit 9
cp "$m" "$o.so" || exit 8
cp "$m" "$o.constants.bin" || exit 8
'''

NAMES = ["a", "b", "model", "x y", "m.v2", "net-1", "o", "tag", "it's",
         "two  spaces"]
DIRS = ["d", "work", "my models", "out.so.d", "a.onnx.d", "-dash", "q'uote"]
OPTS = ["-O3", "--maccel=NNPA", "-v", "--mcpu=z16", "--shapeInformation=0:1x2",
        "-tag", "--EmitLib", "-O0"]

W = None


class Stub:
    """One session of the runtime."""

    def __init__(self, lib, tag="", *a, **k):
        check(os.path.isabs(lib), "the library %s is not absolute" % lib)
        with open(lib) as f:
            self.m = json.load(f)
        self.lib, self.tag = lib, tag
        W.opened.append((lib, tag))
        self.const()

    def const(self):
        if not W.consts:
            return
        d = os.environ.get("OM_CONSTANT_PATH", "")
        # Where the constants are looked for.
        f = os.path.join(d, os.path.basename(self.lib)[:-3] + ".constants.bin")
        if not os.path.exists(f):
            check(False, "the constants of %s are looked for in %r" % (
                self.lib, d))
        with open(f) as g:
            check(json.load(g) == self.m, "other constants")

    def input_signature(self):
        return json.dumps([{"type": "f32", "dims": [2], "name": n}
                           for n in self.m["ins"]])

    def output_signature(self):
        return json.dumps([{"type": "f32", "dims": [2], "name": self.m["id"]}])

    def run(self, x, *a, **k):
        self.const()
        W.ran.append((self.m["id"], x))
        return [np.float32([self.m["id"]])]


class Quit(Exception):
    pass


class World:
    def __init__(self, s, d):
        global W
        W = self
        self.s, self.d, self.n = s, d, 0
        self.opened, self.ran, self.live = [], [], []
        self.consts = True
        self.pulled, self.runs = [], []
        self.images = set()
        self.status = "0"
        self.bin = os.path.join(d, s.pick(["home", "my home"]))
        os.makedirs(self.bin + "/bin")
        os.makedirs(self.bin + "/lib")
        self.exe = self.bin + "/bin/onnx-mlir"
        with open(self.exe, "w") as f:
            f.write(SH % d)
        os.chmod(self.exe, 0o755)
        self.dirs = []
        for k in range(1 + s.draw(3)):
            p = os.path.join(d, s.pick(DIRS) + str(k))
            os.makedirs(p)
            self.dirs.append(p)
        self.models = {}
        for k in range(1 + s.draw(3)):
            self.touch(os.path.join(s.pick(self.dirs), s.pick(NAMES) + s.pick(
                [".onnx", ".onnx", ".mlir"])))
        self.say("0")

    def say(self, st):
        self.status = st
        with open(self.d + "/status", "w") as f:
            f.write(st + "\n")

    def touch(self, p):
        self.n += 1
        q = self.s.perm(4)
        m = {"id": self.n, "ins": ["cadb"[i] for i in q[:1 + self.s.draw(4)]]}
        with open(p, "w") as f:
            json.dump(m, f)
        self.models[p] = m

    def name(self, p):
        """A way to name a file."""
        return os.path.relpath(p) if self.s.chance(50) else p

    def calls(self):
        p = self.d + "/calls"
        if not os.path.exists(p):
            return []
        with open(p) as f:
            c = [x.split("\0")[:-1] for x in f.read().split("\n")[:-1]]
        os.remove(p)
        return c

    def runtime(self):
        rt = types.ModuleType("PyRuntime")
        rt.OMExecutionSession = Stub
        sys.modules["PyRuntime"] = rt
        os.environ["ONNX_MLIR_HOME"] = self.bin

    def feed(self, m):
        """The values given to run, and what the model has to get."""
        s = self.s
        vals = {x: np.float32([s.draw(100)]) for x in m["ins"]}
        want = [vals[x] for x in m["ins"]]
        if s.chance(30):
            return list(want), want
        p = s.perm(len(want))
        f = {m["ins"][i]: vals[m["ins"][i]] for i in p}
        if s.chance(20):
            f["other"] = np.float32([0])
        if s.chance(15):
            f["other"] = np.float32([0])
            del f[s.pick(m["ins"])]
            want = None
        s.label("by name")
        return f, want


def call(fn, *a, **k):
    """The result and the status (None when it ended)."""
    out = io.StringIO()
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
            return fn(*a, **k), None
    except SystemExit as e:
        c = e.code
        return None, 0 if c is None else c if isinstance(c, int) else 1
    except (RuntimeError, OSError, ImportError, AttributeError, TypeError,
            json.JSONDecodeError, IndexError, KeyError) as e:
        return None, "%s: %s" % (type(e).__name__, e)


@contextlib.contextmanager
def scratch():
    d = tempfile.mkdtemp(prefix="pywrap")
    old, cwd, argv = dict(os.environ), os.getcwd(), sys.argv
    td, mods, path = tempfile.tempdir, dict(sys.modules), list(sys.path)
    try:
        tempfile.tempdir = os.path.join(d, "tmp")
        os.makedirs(tempfile.tempdir)
        os.makedirs(d + "/cwd/sub")
        os.chdir(d + "/cwd")
        yield d
    finally:
        os.chdir(cwd)
        tempfile.tempdir = td
        sys.argv = argv
        sys.path[:] = path
        for k in ("PyRuntime", "docker", "podman"):
            sys.modules.pop(k, None)
            if k in mods:
                sys.modules[k] = mods[k]
        os.environ.clear()
        os.environ.update(old)
        shutil.rmtree(d, ignore_errors=True)


# -- onnxmlirdocker.py ---------------------------------------------------------
# What each image has: the path of the compiler.
INSIDE = {"ghcr.io/onnxmlir/onnx-mlir": "/usr/local/bin/bin/onnx-mlir",
          "ghcr.io/onnxmlir/onnx-mlir-dev":
              "/workdir/onnx-mlir/build/Debug/bin/onnx-mlir",
          "onnxmlir/onnx-mlir-dev":
              "/workdir/onnx-mlir/build/Debug/bin/onnx-mlir",
          "icr.io/ibmz/zdlc:5.0.0": "",
          "own/image:1": "/opt/c c/onnx-mlir"}


class NotFound(Exception):
    pass


class Engine:
    """The container engine: images, mounts, and what a command sees."""

    def __init__(self, kind):
        self.kind = kind
        self.images = self.containers = self

    def get(self, name):
        if name not in W.images:
            raise NotFound(name)
        return name

    def pull(self, name, *a, **k):
        W.pulled.append(name)
        W.images.add(name)
        return name

    def run(self, image, command=None, volumes=None, **k):
        if image not in W.images:
            raise RuntimeError("no such image")
        vols = {v["bind"]: (h, v["mode"]) for h, v in (volumes or {}).items()}

        def host(p, write=False):
            if not os.path.isabs(p):
                raise RuntimeError("%s: not in the container" % p)
            q = os.path.dirname(p)
            while q not in vols:
                if q == "/":
                    raise RuntimeError("%s: not in the container" % p)
                q = os.path.dirname(q)
            h, mode = vols[q]
            if write and "w" not in mode:
                raise RuntimeError("%s: read only" % p)
            return os.path.join(h, os.path.relpath(p, q))
        a = shlex.split(command) if isinstance(command, str) else list(
            command or [])
        if INSIDE[image] != "":
            # The first word is the program.
            exe = a.pop(0)
            if exe != INSIDE[image] and not os.access(host(exe), os.X_OK):
                raise RuntimeError("%s: not found" % exe)
            own = exe == INSIDE[image]
        else:
            own = True
        if a == ["--version"]:
            return b"onnx-mlir 1"
        W.runs.append((self.kind, image, own, a))
        if W.status != "0":
            raise RuntimeError("status " + W.status)
        o = m = None
        i = 0
        while i < len(a):
            if a[i] == "-o":
                o, i = a[i + 1], i + 1
            elif not a[i].startswith("-"):
                m = a[i]
            i += 1
        shutil.copy(host(m), host(o + ".so", True))
        shutil.copy(host(m), host(o + ".constants.bin", True))
        return b""


def engine(kind):
    m = types.ModuleType(kind)
    m.from_env = lambda: Engine(kind)
    m.errors = types.SimpleNamespace(ImageNotFound=NotFound)
    return m


def dock_open(w, cls):
    s = w.s
    p = s.pick(sorted(w.models))
    m = w.models[p]
    kw, want, ok = {}, {}, True
    libs = sorted(x for x in w.libs if os.path.exists(x))
    if libs and s.chance(15):
        # A library that is compiled already.
        p = s.pick(libs)
        with open(p) as f:
            m = json.load(f)
        if s.chance(50):
            kw["compile_tag"] = s.pick(["t1", "t 2"])
        s.label("library")
        s.note("open %s %s; " % (p, kw))
        n = len(w.opened)
        w.runs = []
        x, st = call(cls, w.name(p), **kw)
        check(st is None, "opening a library: %s" % st)
        check(w.opened[n:] == [(p, kw.get("compile_tag", "NONE"))], "opened %s"
              % w.opened[n:])
        check(not w.calls() and not w.runs, "a library was compiled")
        w.live.append((x, m))
        return
    tag = "NONE"
    if s.chance(40):
        kw["compile_tag"] = tag = s.pick(["t1", "t 2", "x"])
    opts = [s.pick(OPTS) for _ in range(s.draw(4))]
    out = None
    if s.chance(50):
        out = os.path.join(s.pick(w.dirs + [os.getcwd()]), s.pick(NAMES))
        rel = w.name(out)
        k = s.draw(len(opts) + 1)
        o = opts[:k] + ["-o", rel] + opts[k:]
        s.label("-o")
    else:
        o = list(opts)
    if o or s.chance(50):
        # Quotes where they are needed.
        kw["compile_options"] = s.pick([" ", " ", "  "]).join(
            map(shlex.quote, o))
    # Where it is compiled.
    where = s.weighted([5, 6])
    kind = image = None
    if where == 0:
        kw["compiler_image_name"] = s.pick(["local", "None", None])
        if s.chance(8):
            ok = False
            if s.chance(50):
                kw["compiler_path"] = w.bin + "/bin/nothing"
        else:
            kw["compiler_path"] = w.exe
    else:
        have = []
        for e in ("docker", "podman"):
            sys.modules.pop(e, None)
            if s.chance(85):
                sys.modules[e] = engine(e)
                have.append(e)
            else:
                sys.modules[e] = None
        eng = s.weighted([4, 2, 2, 1])
        if eng == 0:
            kind = have[0] if have else None
            if s.chance(30):
                kw["container_engine"] = None
        elif eng < 3:
            kw["container_engine"] = kind = ["docker", "podman"][eng - 1]
            if kind not in have:
                kind = None
        else:
            kw["container_engine"] = "other"
        ok = ok and kind is not None
        image = s.pick([None] + sorted(INSIDE))
        if image is not None:
            kw["compiler_image_name"] = image
        else:
            image = "ghcr.io/onnxmlir/onnx-mlir-dev"
        own = True
        c = s.weighted([5, 2, 1])
        if image == "own/image:1" and c == 0:
            ok = False      # its compiler is not known
        if c == 1 and INSIDE[image] != "":
            kw["compiler_path"] = w.exe
            own = False
        elif c == 1 or (c == 2 and INSIDE[image] != ""):
            kw["compiler_path"] = INSIDE[image]
        if s.chance(60):
            w.images.add(image)
        here = image in w.images
        s.label("container")
    w.say("0" if s.chance(85) else s.pick(["1", "4", "k"] if where == 0
                                          else ["1"]))
    bad = s.chance(4)
    if bad:
        p, ok = p.rsplit(".", 1)[0] + s.pick([".txt", ".pb"]), False
    stale = out and os.path.exists(out + ".so")
    if stale:
        s.label("over another")
    s.note("open %s %s status %s; " % (p, kw, w.status))
    n = len(w.opened)
    w.runs, w.pulled = [], []
    x, st = call(cls, w.name(p), **kw)
    calls = w.calls()
    if not ok:
        s.label("refused")
        check(st not in (None, 0), "opened, should be refused")
        check(not calls and not w.runs, "compiled, should be refused")
        return
    want = ["--tag=" + tag]
    if where == 0:
        check(len(calls) == 1 and not w.runs, "%d compilations" % len(calls))
        a = calls[0]
    else:
        check(len(w.runs) == 1 and not calls, "%d compilations (%s)" % (
            len(w.runs), st))
        check(w.runs[0][:3] == (kind, image, own), "compiled by %s, should be "
              "by %s" % (w.runs[0][:3], (kind, image, own)))
        check(w.pulled == ([] if here else [image]), "pulled %s" % w.pulled)
        a = w.runs[0][3]
    s.nontrivial()
    # The model, the options, the output and the tag, all once.
    i = a.index("-o") if "-o" in a else -1
    check(i >= 0 and i + 1 < len(a), "no output: %s" % a)
    o = a[i + 1]
    rest = a[:i] + a[i + 2:]
    if out:
        check(o == out, "output %r, should be %r" % (o, out))
    check(sorted(rest) == sorted(opts + want + [p]), "arguments %s, should be "
          "%s" % (rest, opts + want + [p]))
    check([y for y in rest if y in opts] == opts, "options in another order: "
          "%s, should be %s" % (rest, opts))
    if w.status != "0":
        s.label("compiler fails")
        check(st not in (None, 0), "a session is opened although the compiler "
              "failed")
        check(w.opened[n:] == [], "a library is loaded although the compiler "
              "failed")
        return
    check(st is None, "fails: %s" % st)
    check(w.opened[n:] == [(o + ".so", tag)], "opened %s, should be %s" % (
        w.opened[n:], (o + ".so", tag)))
    if out:
        w.libs.add(out + ".so")
        # Sessions of the library that was there are not used any more.
        w.live = [y for y in w.live if y[0].session.lib != o + ".so"]
    w.live.append((x, m))


def dock(s):
    with scratch() as d:
        w = World(s, d)
        w.libs = set()
        w.runtime()
        m = types.ModuleType("onnxmlirdocker")
        exec(DOCK, m.__dict__)
        for _ in range(1 + s.draw(8)):
            k = s.weighted([5, 4, 1, 1])
            if k == 0:
                dock_open(w, m.InferenceSession)
            elif k == 1 and w.live:
                x, mm = s.pick(w.live)
                f, want = w.feed(mm)
                s.note("run %s %s; " % (mm, f))
                n = len(w.ran)
                if s.chance(50):
                    r, st = call(x.run, f)
                else:
                    r, st = call(x.run_ort, s.pick([None, ["a"]]), f)
                if want is None:
                    check(st not in (None, 0), "runs without an input")
                    check(len(w.ran) == n, "runs without an input")
                    continue
                check(st is None, "run fails: %s" % st)
                check(len(w.ran) == n + 1 and w.ran[n][0] == mm["id"],
                      "another model ran")
                check(list(map(float, w.ran[n][1])) == list(map(float, want)),
                      "the model got %s, should get %s" % (w.ran[n][1], want))
                check(float(r[0][0]) == mm["id"], "result")
                check(json.loads(x.output_signature())[0]["name"] == mm["id"],
                      "signature")
                check([y["name"] for y in json.loads(x.input_signature())] ==
                      mm["ins"], "signature")
            elif k == 2 and w.live:
                w.live.pop(s.draw(len(w.live)))
            elif k == 3:
                w.touch(s.pick(sorted(w.models)))
        # Nothing is left once the sessions are gone.
        w.live = []
        x = None
        gc.collect()
        left = os.listdir(tempfile.tempdir)
        check(not left, "left in the temporary directory: %s" % left)


# -- docker/onnx-mlir.py -------------------------------------------------------
DSH = r'''#!/bin/sh
d='%s'
printf '%%s\0' "$@" >> "$d/calls"
printf '\n' >> "$d/calls"
if [ "$1" = pull ]; then cat "$d/pulltext"; exit "$(cat "$d/pull")"; fi
cat "$d/text"
exit "$(cat "$d/status")"
'''


def cli(s):
    with scratch() as d:
        W0 = types.SimpleNamespace(d=d)
        os.makedirs(d + "/bin")
        have = not s.chance(4)
        if have:
            with open(d + "/bin/docker", "w") as f:
                f.write(DSH % d)
            os.chmod(d + "/bin/docker", 0o755)
        os.environ["PATH"] = d + "/bin:/usr/bin:/bin"
        have = have or shutil.which("docker") is not None
        if not have:
            pass
        pull = s.weighted([9, 1])
        status = s.pick([0, 0, 0, 1, 5, 139])
        text = "".join(s.pick(["ok\n", "Error: x\n", "\n", "é\n", "last"])
                       for _ in range(s.draw(4)))
        for f, v in (("pull", "%d" % (3 * pull)), ("status", "%d" % status),
                     ("text", text),
                     ("pulltext", "Using default\n0123456789ab: Pull\n")):
            with open(d + "/" + f, "w") as g:
                g.write(v)
        cwd = os.getcwd()
        places = [cwd, cwd + "/sub", d, d + "/x y"]
        a, paths = [], {}

        def path(suffix):
            p = os.path.join(s.pick(places), s.pick(NAMES) + suffix)
            paths[len(a)] = p
            k = s.draw(4)
            r = os.path.relpath(p)
            a.append(p if k == 0 else os.path.join(".", r) if k == 1
                     else os.path.join("sub", "..", r) if k == 2 else r)
        for _ in range(s.draw(6)):
            k = s.weighted([5, 3, 2])
            if k == 0:
                a.append(s.pick(OPTS + ["--opt", "7"]))
            elif k == 1:
                path(s.pick([".onnx", ".onnx", ".json", ".mlir"]))
            else:
                a.append("-o")
                path(s.pick(["", "", ".so", ".onnx"]))
        sock = not s.chance(4)
        s.note("onnx-mlir.py %s (%s)" % (a, cwd))
        real = os.stat

        def st(p, *x, **k):
            if p == "/var/run/docker.sock":
                return os.stat_result(((stat.S_IFSOCK if sock else
                                        stat.S_IFREG) | 0o660,) + (0,) * 9)
            return real(p, *x, **k)
        m = types.ModuleType("docker_onnx_mlir")
        out = io.StringIO()
        sys.argv = ["onnx-mlir.py"] + a
        code = "no exit"
        try:
            os.stat = st
            with contextlib.redirect_stdout(out):
                exec(CLI, m.__dict__)
                m.main()
        except SystemExit as e:
            code = e.code
        finally:
            os.stat = real
        calls = World.calls(W0)
        if not have or not sock:
            check(code not in (0, None, "no exit"), "no docker: status %s" %
                  code)
            check(not calls, "docker was called")
            return
        check(len(calls) >= 1 and calls[0][0] == "pull", "no pull: %s" % calls)
        image = calls[0][1]
        if pull:
            check(code == 3, "the pull failed with 3, status %s" % code)
            check(len(calls) == 1, "runs although the pull failed")
            return
        check(len(calls) == 2, "calls %s" % calls)
        c = calls[1]
        check(c[0] == "run", "calls %s" % calls)
        vols, user, i = {}, None, 1
        while i < len(c) and c[i].startswith("-"):
            if c[i] in ("-v", "-u"):
                v = c[i + 1]
                i += 1
                if c[i - 1] == "-v":
                    h, b = v.split(":")[:2]
                    check(b not in vols, "%s is mounted twice" % b)
                    vols[b] = h
                else:
                    user = v
            else:
                check(c[i] in ("--rm", "-ti", "-t", "-i"), "docker option %s" %
                      c[i])
            i += 1
        check(i < len(c) and c[i] == image, "image %s, pulled %s" % (
            c[i:i + 1], image))
        check("--rm" in c, "the container is kept")
        check(user == "%d:%d" % (os.geteuid(), os.getegid()), "user %s" % user)
        got = c[i + 1:]
        check(len(got) == len(a), "arguments %s, should be %s" % (got, a))
        for k, (x, y) in enumerate(zip(a, got)):
            if k not in paths:
                check(x == y, "argument %r became %r" % (x, y))
                continue
            check(os.path.isabs(y), "the path %r is passed as %r to the "
                  "container" % (x, y))
            q = os.path.dirname(y)
            while q not in vols and q != "/":
                q = os.path.dirname(q)
            check(q in vols, "%r is not in the container" % y)
            h = os.path.normpath(os.path.join(vols[q], os.path.relpath(y, q)))
            check(h == paths[k], "%r is %s in the container" % (x, h))
        if paths:
            s.nontrivial()
        if len(paths) > 1:
            s.label("many paths")
        check(code == status, "status %s, the compiler's is %d" % (
            code, status))
        check(out.getvalue().endswith(text), "the compiler's output is lost")


# -- onnxmlirrun.py ------------------------------------------------------------
def ort(s):
    with scratch() as d:
        w = World(s, d)
        w.consts = False
        w.runtime()
        m = types.ModuleType("onnxmlirrun")
        exec(ORT, m.__dict__)
        live = []
        for _ in range(1 + s.draw(8)):
            k = s.weighted([3, 5, 1, 1])
            if k == 0:
                p = s.pick(sorted(w.models))
                kw = {}
                opts = [s.pick(OPTS) for _ in range(s.draw(3))]
                if opts or s.chance(30):
                    kw["options"] = s.pick([" ", "  "]).join(opts)
                z = s.chance(20)
                if z:
                    kw["target"] = "zAIU"
                os.environ["ONNX_MLIR_HOME"] = w.bin
                if s.chance(30):
                    kw["ONNX_MLIR_HOME"] = w.bin
                    os.environ.pop("ONNX_MLIR_HOME")
                    if s.chance(50):
                        os.environ["ONNX_MLIR_HOME"] = d + "/nothing"
                q = w.name(p)
                s.note("open %s %s; " % (q, kw))
                x, st = call(m.InferenceSession, q, **kw)
                check(st is None, "fails: %s" % st)
                if z:
                    opts = ["--maccel=NNPA", "-O3", "--march=z16"] + opts
                live.append([x, p, q, opts, None])
            elif k == 1 and live:
                e = s.pick(live)
                mm = e[4] or w.models[e[1]]
                f, want = w.feed(mm)
                if s.chance(15) and len(mm["ins"]) == 1:
                    f = np.float32([3])
                    want = [f]
                w.say("0" if s.chance(85) else s.pick(["1", "k"]))
                s.note("run %s %s status %s; " % (e[2], f, w.status))
                n = len(w.ran)
                r, st = call(e[0].run, None, f)
                calls = w.calls()
                if e[4]:
                    check(not calls, "compiled again")
                    s.label("again")
                else:
                    check(len(calls) == 1, "%d compilations (%s)" % (
                        len(calls), st))
                    a = calls[0]
                    check("-o" in a, "no output: %s" % a)
                    i = a.index("-o")
                    check(sorted(a[:i] + a[i + 2:]) == sorted(
                        [e[2]] + e[3]), "arguments %s" % a)
                    check(a[i + 1].startswith(tempfile.tempdir), "output %s" %
                          a[i + 1])
                    if w.status != "0":
                        check(st not in (None, 0), "runs although the compiler "
                              "failed")
                        check(len(w.ran) == n, "runs although the compiler "
                              "failed")
                        s.label("compiler fails")
                        continue
                    e[4] = mm
                if want is None:
                    check(st not in (None, 0), "runs without an input")
                    check(len(w.ran) == n, "runs without an input")
                    continue
                s.nontrivial()
                check(st is None, "run fails: %s" % st)
                check(len(w.ran) == n + 1 and w.ran[n][0] == mm["id"],
                      "another model ran")
                check(list(map(float, w.ran[n][1])) == list(map(float, want)),
                      "the model got %s, should get %s" % (w.ran[n][1], want))
                check(float(r[0][0]) == mm["id"], "result")
            elif k == 2 and live:
                live.pop(s.draw(len(live)))
            elif k == 3:
                w.touch(s.pick(sorted(w.models)))
        live, e, x = [], None, None
        gc.collect()
        left = os.listdir(tempfile.tempdir)
        check(not left, "left in the temporary directory: %s" % left)


builtins.exit = sys.exit
PROPS = {"dock": (dock, None), "cli": (cli, None), "ort": (ort, None)}

if __name__ == "__main__":
    main(PROPS)
