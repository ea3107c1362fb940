"""T01: the cache of compiled sessions against a model of it (memory: least
recently used first out; disk: what was put, also after restarts, damage and
writes that stopped half way)."""
import builtins
import importlib.util
import os
import random
import shutil
import sys
import tempfile
import types

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)),
                                "..", "lib"))
from pypbt import check, main  # noqa

REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "src/Runtime/python/torch_onnxmlir/src/torch_onnxmlir",
                   "sessioncache.py")


class Session:
    """Stands for om_pyrt.InferenceSession: what was compiled is the text of
    the library (and of its constants) when it was opened."""

    def __init__(self, lib, tag=None, **kw):
        self.lib, self.tag = str(lib), tag
        with open(self.lib) as f:
            self.text = f.read()
        if not self.text.endswith("."):
            raise RuntimeError("broken library")
        c = self.lib[:-3] + ".constants.bin"
        self.consts = open(c).read() if os.path.exists(c) else None

    def get_shared_lib_path(self):
        return self.lib

    def compilation_info(self):
        return "info " + self.text

    def input_signature(self):
        return "in " + self.text

    def output_signature(self):
        return "out " + self.text


def load():
    m = types.ModuleType("om_pyrt")
    m.InferenceSession = Session
    sys.modules["om_pyrt"] = m
    sp = importlib.util.spec_from_file_location("sessioncache", SRC)
    mod = importlib.util.module_from_spec(sp)
    sys.modules["sessioncache"] = mod
    sp.loader.exec_module(mod)
    return mod


MOD = load()
REAL = {"copy2": shutil.copy2, "copyfile": shutil.copyfile,
        "copy": shutil.copy, "move": shutil.move, "open": builtins.open,
        "replace": os.replace, "rename": os.rename}


class Stop(BaseException):
    """The process ends here."""


class Crash:
    """Ends the n-th step that writes below a directory: before, half way
    or after."""

    def __init__(self, n, how, root):
        self.n, self.how, self.root, self.fired = n, how, root, False

    def due(self, path):
        if self.fired or not str(path).startswith(self.root):
            return False
        self.n -= 1
        self.fired = self.n < 0
        return self.fired

    def __enter__(self):
        def copier(real):
            def f(src, dst, *a, **k):
                if not self.due(dst):
                    return real(src, dst, *a, **k)
                if self.how == 1 and os.path.isfile(src):
                    if os.path.isdir(dst):
                        dst = os.path.join(dst, os.path.basename(src))
                    with REAL["open"](src, "rb") as i:
                        d = i.read()
                    with REAL["open"](dst, "wb") as o:
                        o.write(d[:len(d) // 2])
                elif self.how == 2:
                    real(src, dst, *a, **k)
                raise Stop()
            return f

        def renamer(real):
            def f(src, dst, *a, **k):
                d = self.due(dst)
                if not d or self.how:
                    real(src, dst, *a, **k)
                if d:
                    raise Stop()
            return f

        def opener(path, mode="r", *a, **k):
            if ("w" not in mode and "x" not in mode) or not isinstance(
                    path, (str, os.PathLike)) or not self.due(path):
                return REAL["open"](path, mode, *a, **k)
            if self.how == 0:
                raise Stop()
            f = REAL["open"](path, mode, *a, **k)
            half, w = self.how == 1, f.write

            class W:
                def __enter__(s):
                    return s

                def __exit__(s, *e):
                    f.close()

                def write(s, d):
                    w(d[:len(d) // 2] if half else d)
                    f.close()
                    raise Stop()

                def __getattr__(s, n):
                    return getattr(f, n)
            return W()
        for n in ("copy2", "copyfile", "copy"):
            setattr(shutil, n, copier(REAL[n]))
        shutil.move = renamer(REAL["move"])
        os.replace, os.rename = map(renamer, (REAL["replace"], REAL["rename"]))
        builtins.open = opener
        return self

    def __exit__(self, *e):
        for n in ("copy2", "copyfile", "copy", "move"):
            setattr(shutil, n, REAL[n])
        builtins.open = REAL["open"]
        os.replace, os.rename = REAL["replace"], REAL["rename"]


class World:
    def __init__(self, s, d):
        self.s, self.d = s, d
        self.dir = os.path.join(d, "cache")
        os.environ["TORCHONNXMLIR_CACHE_DIR"] = self.dir
        self.keys = ["_om_" + c * 3 for c in "abcdefg"[:2 + s.draw(6)]]
        self.big = [k for k in self.keys if s.chance(50)]
        self.disk = {}      # key -> (text, constants, indices) | "maybe"
        self.serial = 0
        self.restart()

    def restart(self):
        self.cap = 1 + self.s.draw(4)
        self.c = MOD.SessionCache(self.cap)
        self.mem = []       # (key, tag, text, consts, indices), oldest first
        self.s.note("cache(%d); " % self.cap)

    def find(self, key):
        return next((e for e in self.mem if e[0] == key), None)

    def same(self):
        check(len(self.c) == len(self.mem), "%d entries, should be %d" %
              (len(self.c), len(self.mem)))
        check(len(self.c) <= self.cap, "%d entries, capacity %d" %
              (len(self.c), self.cap))
        for k in self.keys:
            check((k in self.c) == (self.find(k) is not None),
                  "%s is %sin the cache" % (k, "" if k in self.c else "not "))

    def judge(self, v, e, how):
        key, tag, text, consts, idx = e
        check(v is not None, "%s: not found (%s)" % (key, how))
        check(v.sess.text == text, "%s (%s): session of '%s', should be '%s'"
              % (key, how, v.sess.text, text))
        check(v.sess.consts == consts, "%s (%s): constants %s, should be %s"
              % (key, how, v.sess.consts, consts))
        check(v.tag == tag, "%s: tag %s, should be %s" % (key, v.tag, tag))
        check(v.example_inputs_indices == idx, "%s (%s): indices %s, should "
              "be %s" % (key, how, v.example_inputs_indices, idx))

    def evict(self):
        if len(self.mem) >= self.cap:
            return self.mem.pop(0)
        return None

    def get(self, key=None):
        s = self.s
        key = key or s.pick(self.keys)
        e = self.find(key)
        s.note("get %s; " % key)
        v = self.c.get(key)
        if e:
            self.judge(v, e, "memory")
            self.mem.remove(e)
            self.mem.append(e)
        else:
            d = self.disk.get(key)
            if isinstance(d, list):
                # A write that stopped: nothing, or all of it.
                s.label("after a crash")
                if v is None:
                    return None
                full, = d
                e = (key, key) + full
                self.judge(v, e, "after a crash")
                self.disk[key] = full
                self.evict()
                self.mem.append(e)
            elif d is None:
                check(v is None, "%s: found, never put" % key)
            else:
                e = (key, key) + d
                s.label("from disk")
                if len(self.mem) >= self.cap:
                    s.label("from disk when full")
                    s.nontrivial()
                self.judge(v, e, "disk")
                self.evict()
                self.mem.append(e)
        self.same()
        return v

    def compile(self, key):
        """A new session, as the compiler makes it in a directory."""
        s = self.s
        self.serial += 1
        w = os.path.join(self.d, "w%d" % self.serial)
        os.makedirs(w)
        text = "lib %s %d %s." % (key, self.serial, "x" * s.draw(40))
        # What is compiled for a key has constants or it does not.
        consts = "consts %d" % self.serial if key in self.big else None
        with open(w + "/model%s.so" % key, "w") as f:
            f.write(text)
        if consts:
            with open(w + "/model%s.constants.bin" % key, "w") as f:
                f.write(consts)
        for n in ("model.onnx", "model.onnx_data", "x.data", "notes.txt"):
            if s.chance(40):
                with open(w + "/" + n, "w") as f:
                    f.write(n + str(self.serial))
        if s.chance(20):
            os.makedirs(w + "/dir.so")
        idx = [s.draw(6) for _ in range(s.draw(4))]
        sess = Session(w + "/model%s.so" % key, tag=key)
        return w, MOD.CacheValue(tag=key, sess=sess,
                                 example_inputs_indices=idx), (text, consts,
                                                               idx)

    def victim(self):
        full = len(self.mem) >= self.cap
        n = len(self.mem)
        r = self.c.victim()
        if full:
            e = self.evict()
            self.s.label("evicted")
            self.s.nontrivial()
            check(r == e[1], "victim %s, the least recently used one is %s" %
                  (r, e[1]))
        else:
            check(r == n, "victim of a cache that is not full is %r" % (r,))
        self.same()

    def put(self, key, crash=False, again=False):
        s = self.s
        w, v, full = self.compile(key)
        s.note("put %s %s%s; " % (key, full, " crash" if crash else ""))
        if not again:
            self.victim()
        if s.chance(30):
            self.c.write_onnx_to_disk(key, w)
            for n in os.listdir(w):
                here = os.path.exists(os.path.join(self.dir, key, n))
                want = n.endswith((".onnx", ".onnx_data", ".data"))
                check(here or not want, "%s was not saved" % n)
        write = crash or s.chance(85)
        if not crash:
            self.c.put(key, v, *([] if write and s.chance(80) else [write]))
            e = self.find(key)
            if e:
                self.mem.remove(e)
            self.mem.append((key, key) + full)
            if write:
                self.disk[key] = full
            self.same()
            return
        n = s.draw(6)
        with Crash(n, s.draw(3), self.dir) as c:
            try:
                self.c.put(key, v)
            except Stop:
                pass
        s.label("crash" if c.fired else "no crash")
        if c.fired:
            s.nontrivial()
        self.disk[key] = [full] if c.fired else full
        # What was in memory is gone.
        self.restart()
        self.same()

    def op(self):
        s = self.s
        key = s.pick(self.keys)
        k = s.weighted([5, 8, 1, 1, 1, 2, 1, 2, 2, 1])
        if k == 0:
            self.get()
        elif k == 1:
            # What the backend does.
            if self.get(key) is None:
                self.put(key)
        elif k == 2:
            s.note("remove %s; " % key)
            self.c.remove(key)
            self.mem = [e for e in self.mem if e[0] != key]
            self.same()
        elif k == 3:
            s.note("clear; ")
            self.c.clear()
            self.mem = []
            self.same()
        elif k == 4:
            s.note("victim; ")
            self.victim()
        elif k == 5:
            self.restart()
        elif k == 6:
            # A key that is there already: nothing has to go.
            if self.find(key):
                s.label("put again")
                self.put(key, again=True)
        elif k == 7:
            # What came from the cache is put back.
            e = self.find(key)
            if e and (key in self.disk and self.disk[key] == e[2:]):
                s.label("put back")
                v = self.c.get(key)
                self.judge(v, e, "memory")
                self.mem.remove(e)
                self.c.put(key, v)
                self.mem.append(e)
                self.same()
        elif k == 8:
            if key not in self.disk and not self.find(key):
                self.put(key, crash=True)
                if s.chance(70):
                    if self.get(key) is None:
                        self.put(key)
        elif k == 9:
            # Other things in the directory; a key that loses its files.
            r = s.draw(3)
            if r == 0:
                os.makedirs(os.path.join(self.dir, "other", key),
                            exist_ok=True)
            elif r == 1:
                shutil.rmtree(os.path.join(self.dir, key), ignore_errors=True)
                self.disk.pop(key, None)
            else:
                shutil.rmtree(os.path.join(self.dir, key), ignore_errors=True)
                os.makedirs(os.path.join(self.dir, key))
                self.disk.pop(key, None)
            s.note("damage %d %s; " % (r, key))


def cache(s):
    d = tempfile.mkdtemp(prefix="pycache")
    try:
        w = World(s, d)
        for _ in range(2 + s.draw(40)):
            w.op()
        for k in w.keys:
            w.get(k)
    finally:
        shutil.rmtree(d, ignore_errors=True)


PROPS = {"cache": (cache, None)}

if __name__ == "__main__":
    main(PROPS)
