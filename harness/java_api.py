"""J01: the Java API against a model of it, with a native model that does what
its first input says and counts the memory that it and the wrapper hold."""
import os
import struct
import subprocess
import sys
import tempfile

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)),
                                "..", "lib"))
from pypbt import check, main, Discard, Fail  # noqa

JAR = os.environ["JAPI_JAR"]

SIZE = [0, 4, 1, 1, 2, 2, 4, 8, 0, 1, 2, 8, 4, 8, 8, 16, 2, 1, 1, 1, 1]
NAME = ["UNDEFINED", "FLOAT", "UINT8", "INT8", "UINT16", "INT16", "INT32",
        "INT64", "STRING", "BOOL", "FLOAT16", "DOUBLE", "UINT32", "UINT64",
        "COMPLEX64", "COMPLEX128", "BFLOAT16", "FLOAT8E4M3FN",
        "FLOAT8E4M3FNUZ", "FLOAT8E5M2", "FLOAT8E5M2FNUZ"]
KIND = {"b": (3, 1), "B": (3, 1), "z": (9, 1), "s": (5, 2), "i": (6, 4),
        "l": (7, 8), "f": (1, 4), "d": (11, 8)}
GET = {"b": (3, 2), "z": (9,), "s": (5, 4), "i": (6, 12), "l": (7, 13),
       "f": (1,), "d": (11,)}


class JVM:
    def __init__(self, env):
        self.dir = tempfile.mkdtemp(prefix="japi")
        e = dict(os.environ, **env)
        e["ONNX_MLIR_JNI_LOG_FILE"] = self.dir + "/log"
        # The jar is the place where the libraries are unpacked.
        jar = self.dir + "/model.jar"
        os.link(JAR, jar) if os.stat(JAR).st_dev == os.stat(
            self.dir).st_dev else open(jar, "wb").write(open(JAR, "rb").read())
        self.err = open(self.dir + "/err", "w+b")
        self.p = subprocess.Popen(
            ["java", "-Xmx256m", "-Xss512k", "-XX:+UseSerialGC",
             "-XX:TieredStopAtLevel=1", "-XX:-CreateCoredumpOnCrash",
             "-XX:ErrorFile=" + self.dir + "/hs", "-cp", jar,
             "Driver"], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
            stderr=self.err, env=e, cwd=self.dir)

    def do(self, *a):
        l = " ".join(str(x) for x in a)
        try:
            self.p.stdin.write((l + "\n").encode())
            self.p.stdin.flush()
            r = self.p.stdout.readline()
        except OSError:
            r = b""
        if not r:
            self.p.wait()
            self.err.seek(0)
            raise Fail("the JVM ended (status %s) at '%s': %s" % (
                self.p.returncode, l[:300],
                self.err.read()[-600:].decode(errors="replace")))
        if r.startswith(b"#"):
            raise Fail("the JVM crashed at '%s': %s" % (
                l[:300], self.p.stdout.read(900).decode(errors="replace")))
        return r.decode().rstrip("\n")


jvms = {}


def jvm(mode):
    if mode in jvms and jvms[mode].p.poll() is None:
        return jvms[mode]
    env = {} if mode == 0 else {
        "ONNX_MLIR_JNI_LOG_LEVEL": ["", "trace", "debug", "nonsense"][mode]}
    jvms[mode] = JVM(env)
    return jvms[mode]


def cleanup():
    import shutil
    for j in jvms.values():
        try:
            j.p.stdin.close()
        except OSError:
            pass
        j.p.kill()
        j.p.wait()
        shutil.rmtree(j.dir, ignore_errors=True)


def hx(b):
    return b.hex() or "-"


def ls(a):
    return ",".join(map(str, a)) or "-"


def prod(a):
    n = 1
    for x in a:
        n *= x
    return n


def fnv(b):
    h = 1469598103934665603
    for x in b:
        h = ((h ^ x) * 1099511628211) & ((1 << 64) - 1)
    return h - (1 << 64) if h >> 63 else h


def lcg(seed, n):
    out = bytearray()
    for _ in range(n):
        seed = (seed * 1103515245 + 12345) & ((1 << 64) - 1)
        out.append(seed >> 16 & 255)
    return bytes(out)


def rowmajor(sh):
    st = [1] * len(sh)
    for i in range(len(sh) - 2, -1, -1):
        st[i] = st[i + 1] * sh[i + 1]
    return st


class T:
    def __init__(self, data, dtype, shape, strides=None):
        self.data, self.dtype = data, dtype
        self.shape = list(shape)
        self.strides = list(strides) if strides is not None else rowmajor(shape)
        self.rank = len(shape)
        self.width = SIZE[dtype]
        self.big = False     # order of the bytes of an element

    def value(self, k):
        """What the getter of kind k should return, as little endian."""
        w = KIND[k][1]
        d = self.data[:len(self.data) // w * w]
        if self.big:
            d = b"".join(d[x:x + w][::-1] for x in range(0, len(d), w))
        return d

    def whole(self):
        # (The model reads what is in memory.)
        return (SIZE[self.dtype] and (not self.big or self.width == 1) and
                prod(self.shape) * SIZE[self.dtype] == len(self.data))


def i64(*a):
    return b"".join(struct.pack("<q", x) for x in a)


class World:
    def __init__(self, s):
        self.s = s
        self.j = jvm(s.weighted([5, 2, 2, 1]))
        self.t = {}
        self.next = 0
        self.eps, self.isig, self.osig = [b""] * 3, [b""] * 3, [b""] * 3
        self.n = 0
        self.info = None
        self.reset = True
        self.do("*drop")
        self.cmd(5)
        self.reset = False
        self.cmd(4, 0)
        for k in range(9):
            self.setstr(k, b"")

    def do(self, *a):
        return self.j.do(*a)

    def slot(self):
        self.next += 1
        return self.next

    def setstr(self, k, v):
        if k == 9:
            self.info = v
        self.cmd(3, k, len(v), *v)
        if k < 9:
            [self.eps, self.isig, self.osig][k // 3][k % 3] = v

    def command(self, c):
        d = i64(*c)
        i = self.slot()
        check(self.do("new", i, "l", hx(d), len(c)) == "ok", "new")
        return i

    def cmd(self, *c):
        """A command without inputs or outputs of interest."""
        self.run(c, [])

    def live(self):
        if self.info is None and not self.reset:
            r = self.do("*cinfo")
            check(bytes.fromhex(r) == b"live 0 bad 0",
                  "blocks not released, or released that were not allocated: "
                  + bytes.fromhex(r).decode())

    def expect(self, c, ins):
        """Outputs of command c with inputs ins."""
        if c[0] == 1:
            return None
        out = []
        if c[0] == 2:
            out = [T(x.data, x.dtype, x.shape) for x in ins]
        if c[0] == 0:
            p = list(c[2:])
            for _ in range(c[1]):
                ty, r = p[0], p[1]
                sh, st = p[2:2 + r], p[2 + r:2 + 2 * r]
                seed, own, sz = p[2 + 2 * r:5 + 2 * r]
                p = p[5 + 2 * r:]
                out.append(T(lcg(seed, sz), ty, sh, st))
        rec = [len(ins) + 1]
        for x in ins:
            rec += [x.rank, x.dtype] + x.shape + rowmajor(x.shape)
            rec += [len(x.data), 0, fnv(x.data)]
        out.append(T(i64(*rec), 7, [len(rec)]))
        return out

    def run(self, c, ins, threads=0):
        cs = self.command(c)
        exp = self.expect(c, [self.t[i] for i in ins])
        base = self.next + 1
        ids = ls([cs] + list(ins))
        if threads:
            r = self.do("*runthreads", ids, base, threads)
        else:
            r = self.do("*run", ids, base)
        if exp is None:
            check(r == "null" or r.startswith("!"),
                  "a failing model gave %s" % r)
            self.live()
            return
        check(r == str(len(exp)), "run gave %s, not %d tensors" %
              (r, len(exp)))
        self.live()
        self.next += len(exp) * max(threads, 1)
        for k in range(max(threads, 1)):
            for i, e in enumerate(exp):
                o = base + k * len(exp) + i
                self.t[o] = T(e.data, e.dtype, e.shape, e.strides)
                if c[0] in (0, 2):
                    self.compare(o)
                elif i == len(exp) - 1:
                    del self.t[o]
        if c[0] in (0, 2):
            for i in ins:
                self.compare(i)

    def compare(self, i):
        """Everything about tensor i."""
        m = self.t[i]
        for q, v in (("shape", ls(m.shape)), ("strides", ls(m.strides)),
                     ("dtype", m.dtype), ("rank", m.rank),
                     ("elems", prod(m.shape)), ("size", len(m.data))):
            r = self.do(q, i)
            check(r == str(v), "tensor %d: %s is %s, should be %s" %
                  (i, q, r, v))
        # The bytes, whatever the type.
        check(self.do("setdtype", i, 3) == "ok", "setdtype")
        r = self.do("get", i, "b")
        check(self.do("setdtype", i, m.dtype) == "ok", "setdtype")
        check(r == hx(m.data), "tensor %d: data is %s, should be %s" %
              (i, r[:200], hx(m.data)[:200]))
        for k, ty in GET.items():
            if m.dtype in ty:
                r = self.do("get", i, k)
                v = hx(m.value(k))
                check(r == v, "tensor %d: %s data is %s, should "
                      "be %s" % (i, k, r[:200], v[:200]))

    # -- operations ---------------------------------------------------------
    def shape(self, cap=60):
        s = self.s
        sh = [s.weighted([1, 6, 6, 4, 2, 1]) for _ in range(
            s.weighted([2, 6, 6, 4, 2, 1]))]
        while prod(sh) > cap:
            sh.pop()
        return sh

    def bytes(self, n):
        s = self.s
        seed = s.draw(1 << 20)
        return lcg(seed, n)

    def new(self):
        s = self.s
        k = s.pick("bBzsilfd")
        sh = self.shape()
        n = prod(sh)
        if s.chance(6):
            n = s.draw(20)
        d = self.bytes(n * KIND[k][1])
        i = self.slot()
        r = self.do("new", i, k, hx(d), ls(sh))
        check(r == "ok", "new: %s" % r)
        self.t[i] = T(d, KIND[k][0], sh)
        s.note("t%d = new %s %s; " % (i, NAME[KIND[k][0]], sh))
        self.compare(i)

    def newbuf(self):
        """On a buffer of a byte order."""
        s = self.s
        ty = s.pick([x for x in range(1, 21) if SIZE[x]])
        sh = self.shape()
        d = self.bytes(prod(sh) * SIZE[ty])
        i = self.slot()
        o = s.pick("BLLB")
        bad = s.chance(10)
        t = ty
        if bad:
            if s.chance(50):
                o = "N"
            else:
                t = s.pick([-1, 21, 22, 1000])
        r = self.do("newbuf", i, hx(d), ls(sh), o, t)
        s.note("t%d = buffer %s %s %s; " % (i, NAME[ty], sh, o))
        if bad:
            check(r.startswith("!IllegalArgumentException"), r)
            return
        check(r == "ok", "newbuf: %s" % r)
        self.t[i] = T(d, ty, sh)
        self.t[i].big = o == "B"
        s.label("byte order")
        self.compare(i)

    def any(self):
        if not self.t:
            self.new()
        return self.s.pick(sorted(self.t))

    def set(self):
        s = self.s
        i = self.any()
        k = s.pick("bzsilfd")
        m = self.t[i]
        n = prod(m.shape)
        if n > 4096 or not s.chance(70):
            n = s.draw(20)
        d = self.bytes(n * KIND[k][1])
        r = self.do("set", i, k, hx(d))
        check(r == "ok", "set: %s" % r)
        m.data, m.dtype, m.width = d, KIND[k][0], KIND[k][1]
        m.big = False
        s.note("t%d.set %s; " % (i, k))
        self.compare(i)

    def get(self):
        s = self.s
        i = self.any()
        k = s.pick("bzsilfd")
        m = self.t[i]
        r = self.do("get", i, k)
        if m.dtype in GET[k]:
            check(r == hx(m.value(k)), "get %s: %s" % (k, r[:200]))
        else:
            check(r.startswith("!NumberFormatException") and
                  NAME[m.dtype] in r.split(),
                  "get %s of %s: %s" % (k, NAME[m.dtype], r[:200]))

    def setdims(self):
        s = self.s
        i = self.any()
        m = self.t[i]
        what = s.pick(["shape", "strides"])
        n = m.rank if s.chance(75) else s.draw(5)
        if what == "shape":
            v = [s.weighted([1, 5, 5, 3, 2]) for _ in range(n)]
            if n == m.rank and s.chance(60):
                v = [m.shape[a] for a in s.perm(n)]
            if n and s.chance(8):
                # (The number of elements may not be an int, but a long.)
                v = [min(x, 4) for x in v]
                v[s.draw(n)] = s.pick([1 << 16, 1 << 31, 1 << 33])
        else:
            v = [s.pick([0, 1, 2, 3, 8, 60, -1, 1 << 40]) for _ in range(n)]
        r = self.do("set" + what, i, ls(v))
        s.note("t%d.set%s %s; " % (i, what, v))
        if n != m.rank:
            check(r.startswith("!IllegalArgumentException"), r)
        else:
            check(r == "ok", r)
            if what == "shape":
                m.shape = v
            else:
                m.strides = v
        self.compare(i)

    def setdtype(self):
        s = self.s
        i = self.any()
        m = self.t[i]
        if s.chance(20):
            v = s.pick([-1, 21, 22, 100, -20, 1 << 30])
            r = self.do("setdtype", i, v)
            check(r.startswith("!IllegalArgumentException"), r)
        else:
            v = s.pick([x for x in range(21) if SIZE[x] == m.width])
            check(self.do("setdtype", i, v) == "ok", "setdtype")
            m.dtype = v
        self.compare(i)

    def inputs(self):
        s = self.s
        ok = [i for i in sorted(self.t) if self.t[i].whole()]
        return [s.pick(ok) for _ in range(s.draw(4))] if ok else []

    def outputs(self):
        s = self.s
        n = s.draw(4)
        c = [0, n]
        for _ in range(n):
            ty = s.pick([x for x in range(1, 21) if SIZE[x]])
            sh = self.shape(120)
            st = rowmajor(sh)
            c += [ty, len(sh)] + sh + st
            c += [s.draw(1 << 20), s.draw(2), prod(sh) * SIZE[ty]]
            if 0 in sh:
                s.label("empty output")
        return c

    def runop(self):
        s = self.s
        ins = self.inputs()
        k = s.weighted([6, 3, 2, 2])
        c = (self.outputs() if k == 0 else [2] if k == 1 else [1] if k == 2
             else self.outputs())
        s.note("run %s on %s; " % (c[:40], ins))
        if any(self.t[i].data == b"" for i in ins):
            s.label("empty input")
        if any(self.t[i].strides != rowmajor(self.t[i].shape) for i in ins):
            s.label("input strides")
        s.label(["make", "echo", "fail", "threads"][k])
        if k != 2 and (ins or c[0] == 0 and c[1]):
            s.nontrivial()
        self.run(c, ins, 2 + s.draw(3) if k == 3 else 0)

    def badrun(self):
        """A list with something that is not a tensor that can be passed."""
        s = self.s
        i = self.any()
        old = self.t[i].dtype
        cs = self.command([2])
        ok = [x for x in sorted(self.t) if x != i and self.t[x].whole()]
        ids = [cs] + [s.pick(ok) for _ in range(s.draw(3)) if ok]
        missing = s.chance(50)
        ids.insert(1 + s.draw(len(ids)), 0 if missing else i)
        if not missing:
            check(self.do("setdtype", i, 0) == "ok", "setdtype")
        r = self.do("*run", ls(ids), self.next + 1)
        s.note("bad run %s: %s; " % (ids, r))
        check(r == "null" or r.startswith("!"), "accepted: %s" % r)
        s.label("refused")
        self.do("setdtype", i, old)
        self.live()
        self.compare(i)

    def strings(self):
        s = self.s
        a = "abcxyz_0123456789{}[]:\",. %sdn/\u00e9\u00ff\u0416\u4e2d\uac00"
        for _ in range(1 + s.draw(4)):
            k = s.draw(10)
            n = s.pick([0, 3, 10, 40, 400, 1400])
            v = s.str(n, a)
            if n >= 400:
                v = (v or "x") * (n // 10)
                v = v[:5000]
            if k == 0 and s.chance(50):
                v = "run_main_graph"
            self.setstr(k, v.encode())
        self.n = s.weighted([1, 2, 3, 4])
        self.cmd(4, self.n)
        self.query()

    def query(self):
        s = self.s
        r = self.do("*eps")
        e = ",".join(hx(x) for x in self.eps[:self.n])
        check(r == e, "entry points %s, should be %s" % (r[:200], e[:200]))
        if self.n > 1:
            s.nontrivial()
            s.label("entry points")
        for k, q, tab in ((0, "*isig", self.isig), (1, "*osig", self.osig)):
            ep = s.pick(self.eps + [b"run_main_graph", b"nowhere"])
            dflt = s.chance(30)
            if dflt:
                ep = b"run_main_graph"
            r = self.do(q) if dflt else self.do(q, hx(ep))
            e = "null"
            if ep in self.eps[:self.n]:
                e = hx(tab[self.eps.index(ep)])
                s.label("signature")
            check(r == e, "%s of %r: %s, should be %s" % (
                q, ep[:80], r[:200], e[:200]))
        if self.info is not None:
            r = self.do("*cinfo")
            check(r == hx(self.info), "compilation info %s" % r[:200])
            self.info = None
            self.reset = True
            self.cmd(5)
            self.reset = False
        self.live()


def japi(s):
    w = World(s)
    for _ in range(1 + s.draw(14)):
        k = s.weighted([6, 2, 3, 3, 2, 8, 1, 2, 2, 2])
        [w.new, w.set, w.get, w.setdims, w.setdtype, w.runop, w.badrun,
         w.strings, w.query, w.newbuf][k]()
    for i in sorted(w.t):
        w.compare(i)
    w.live()


PROPS = {"japi": (japi, None)}

if __name__ == "__main__":
    main(PROPS)
