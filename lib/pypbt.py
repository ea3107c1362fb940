"""Python twin of pbt.hpp: choice-sequence property-based testing engine.

prop(s) draws through s (Src); failures are exceptions of type Fail (or any
unexpected exception). Cases run in forked workers; a failing sequence is
shrunk and replayed three times before it counts. Same CLI and JSON result as
the C++ engine.
"""
import argparse
import json
import os
import pickle
import select
import signal
import sys
import time
import traceback

M64 = (1 << 64) - 1


def mix(z):
    z = (z + 0x9e3779b97f4a7c15) & M64
    z = ((z ^ (z >> 30)) * 0xbf58476d1ce4e5b9) & M64
    z = ((z ^ (z >> 27)) * 0x94d049bb133111eb) & M64
    return z ^ (z >> 31)


class Fail(Exception):
    pass


class Discard(Exception):
    pass


def known(fid):
    return fid in os.environ.get("VERIF_KNOWN", "").split(",")


class Src:
    def __init__(self, seed=None, rec=None):
        self.inp = rec
        self.state = mix(seed) if seed is not None else 0
        self.pos = 0
        self.rec = []
        self.labels = set()
        self.desc = ""
        self.nontriv = False
        self.evals = 1

    def draw(self, n):
        if self.inp is not None:
            v = self.inp[self.pos] if self.pos < len(self.inp) else 0
            self.pos += 1
        else:
            self.state = (self.state + 0x9e3779b97f4a7c15) & M64
            v = mix(self.state)
        if n:
            v %= n
        self.rec.append(v)
        return v

    def range(self, lo, hi):
        return lo + self.draw(hi - lo + 1)

    def chance(self, pct):
        return self.draw(100) >= 100 - pct

    def pick(self, seq):
        seq = list(seq)
        return seq[self.draw(len(seq))]

    def bits(self):
        return self.draw(0)

    def weighted(self, ws):
        r = self.draw(sum(ws))
        for i, w in enumerate(ws):
            if r < w:
                return i
            r -= w
        return 0

    def perm(self, n):
        p = list(range(n))
        for i in range(n - 1):
            j = i + self.draw(n - i)
            p[i], p[j] = p[j], p[i]
        return p

    def str(self, maxlen, alphabet):
        return "".join(alphabet[self.draw(len(alphabet))]
                       for _ in range(self.draw(maxlen + 1)))

    def label(self, l):
        self.labels.add(l)

    def nontrivial(self):
        self.nontriv = True

    def note(self, t):
        if len(self.desc) < 6000:
            self.desc += t


def check(cond, msg=""):
    if not cond:
        raise Fail(msg)


def run_one(fn, s):
    """-> (kind, msg): 0 ok, 1 fail, 4 discard"""
    try:
        fn(s)
        return 0, ""
    except Fail as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = [f for f in tb if "pypbt" not in f.filename]
        w = where[-1] if where else tb[-1]
        return 1, "%s:%d: %s" % (os.path.basename(w.filename), w.lineno, e)
    except Discard:
        return 4, ""
    except Exception as e:  # noqa
        return 1, "unexpected %s: %s\n%s" % (
            type(e).__name__, e, traceback.format_exc()[-1500:])


def run_forked(fn, setup, rec=None, seed=None, timeout=60, history=()):
    r, w = os.pipe()
    er, ew = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        try:
            os.setpgid(0, 0)
            os.close(r)
            os.close(er)
            os.dup2(ew, 2)
            os.dup2(ew, 1)
            if setup:
                setup()
            for h in history:   # cases that ran before in the same process
                run_one(fn, Src(seed=h))
            s = Src(seed=seed, rec=rec)
            k, m = run_one(fn, s)
            data = pickle.dumps((k, m, s.desc, s.rec))
            off = 0
            while off < len(data):
                off += os.write(w, data[off:])
        finally:
            os._exit(0)
    os.close(w)
    os.close(ew)
    buf, err = b"", b""
    t0 = time.monotonic()
    fds = [r, er]
    killed = False
    while fds:
        left = timeout - (time.monotonic() - t0)
        if left <= 0:
            killed = True
            break
        rd, _, _ = select.select(fds, [], [], min(left, 1.0))
        for f in rd:
            d = os.read(f, 1 << 16)
            if not d:
                fds.remove(f)
            elif f == r:
                buf += d
            elif len(err) < 1 << 20:
                err += d
        if not rd:
            p, _st = os.waitpid(pid, os.WNOHANG)
            if p:
                pid = 0
                st = _st
                break
    if killed:
        try:
            os.killpg(pid, signal.SIGKILL)
        except OSError:
            pass
        os.kill(pid, signal.SIGKILL)
        os.waitpid(pid, 0)
        os.close(r)
        os.close(er)
        return 3, "case did not finish in time", "", None
    if pid:
        _, st = os.waitpid(pid, 0)
    os.close(r)
    os.close(er)
    if buf:
        try:
            return pickle.loads(buf)
        except Exception:
            pass
    return 2, "process ended abnormally (status %d): %s" % (
        st, err[-600:].decode(errors="replace")), "", None


def bad(k):
    return k in (1, 2, 3)


def shrink(fn, setup, best, info, budget, timeout):
    t0 = time.monotonic()
    tried = set()

    def key(v):
        return (len(v), v)

    state = {"best": best, "info": info}

    def attempt(c):
        if time.monotonic() - t0 > budget:
            return False
        t = tuple(c)
        if t in tried:
            return False
        tried.add(t)
        k, m, d, rec = run_forked(fn, setup, rec=c, timeout=min(timeout, 20))
        if not bad(k) or (k == 3 and state["info"][0] != 3):
            return False
        nr = rec if rec else c
        b = min(nr, c, key=key)
        if not key(b) < key(state["best"]):
            return False
        state["best"] = b
        state["info"] = (k, m, d)
        return True

    progress = True
    while progress and time.monotonic() - t0 < budget:
        progress = False
        ln = max(1, len(state["best"]) // 2)
        while ln >= 1:
            i = 0
            while i + ln <= len(state["best"]):
                c = state["best"][:i] + state["best"][i + ln:]
                if attempt(c):
                    progress = True
                else:
                    i += max(1, ln // 2)
                if time.monotonic() - t0 > budget:
                    return state["best"], state["info"]
            ln //= 2
        i = 0
        while i < len(state["best"]):
            b = state["best"]
            if b[i]:
                c = list(b)
                c[i] = 0
                if attempt(c):
                    progress = True
                else:
                    lo = 0
                    while (i < len(state["best"]) and
                           state["best"][i] > lo + 1 and
                           time.monotonic() - t0 < budget):
                        mid = lo + (state["best"][i] - lo) // 2
                        c = list(state["best"])
                        c[i] = mid
                        if attempt(c):
                            progress = True
                        else:
                            lo = mid
                    if i < len(state["best"]) and state["best"][i]:
                        c = list(state["best"])
                        c[i] -= 1
                        if attempt(c):
                            progress = True
            i += 1
    return state["best"], state["info"]


def confirm_history(fn, setup, seeds, seed, timeout):
    """A short list of earlier cases after which the case fails every time."""
    t0 = time.monotonic()
    res = [None]

    def fails(h):
        x = run_forked(fn, setup, seed=seed, timeout=timeout + 60, history=h)
        if bad(x[0]):
            res[0] = x
            return True
        return False

    n, h = 1, None
    while seeds and time.monotonic() - t0 < 90:
        c = seeds[-n:]
        if fails(c):
            h = c
            break
        if n >= len(seeds):
            return None
        n *= 8
    if h is None:
        return None
    chunk = (len(h) + 1) // 2
    while time.monotonic() - t0 < 150:
        i, hit = 0, False
        while i < len(h) and time.monotonic() - t0 < 150:
            c = h[:i] + h[i + chunk:]
            if c and fails(c):
                h, hit = c, True
            else:
                i += chunk
        if chunk == 1 and not hit:
            break
        chunk = max(1, chunk // 2)
    for _ in range(3):
        if not fails(h):
            return None
    return h, res[0]


def worker(fn, setup, idx, o, outp, t0, first):
    os.setpgid(0, 0)
    nfd = os.open("/dev/null", os.O_WRONLY)
    os.dup2(nfd, 1)
    os.dup2(nfd, 2)
    if setup:
        setup()
    st = {"labels": {}, "ev": 0, "nt": 0, "disc": 0, "ran": 0,
          "distinct": set(), "samples": [], "bad": None, "next": o.cases}
    cur = outp + ".cur"
    stop = os.path.join(os.path.dirname(outp), "stop")
    for i in range(first, o.cases, o.jobs):
        if time.monotonic() - t0 > o.seconds:
            break
        if os.path.exists(stop):
            st["next"] = i
            break
        with open(cur, "w") as f:
            f.write("%d %f" % (i, time.monotonic()))
        s = Src(seed=mix((o.seed * 1000003 + i) & M64))
        k, m = run_one(fn, s)
        st["ran"] += 1
        if k == 4:
            st["disc"] += 1
            continue
        st["ev"] += s.evals
        for l in s.labels:
            st["labels"][l] = st["labels"].get(l, 0) + 1
        if s.nontriv:
            st["nt"] += 1
            st["distinct"].add(hash(tuple(s.rec)))
            if len(st["samples"]) < 4 and k == 0:
                st["samples"].append(s.desc[:700])
        if k == 1:
            st["bad"] = i
            st["next"] = i + o.jobs
            break
    with open(outp, "wb") as f:
        pickle.dump(st, f)
    os._exit(0)


def run(name, fn, setup, argv):
    ap = argparse.ArgumentParser()
    ap.add_argument("--property")
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--cases", type=int, default=1000)
    ap.add_argument("--seconds", type=float, default=60)
    ap.add_argument("--jobs", type=int, default=4)
    ap.add_argument("--case-timeout", type=float, default=60)
    ap.add_argument("--out")
    ap.add_argument("--replay")
    ap.add_argument("--replay-out")
    o = ap.parse_args(argv)
    if o.replay:
        ls = [l for l in open(o.replay) if l.strip() and l[0] != "#"]
        c = [int(l) for l in ls if l[0] != "@"]
        h = [int(l[1:]) for l in ls if l[0] == "@"]
        if h:
            k, m, d, _ = run_forked(fn, setup, seed=h[-1], history=h[:-1],
                                    timeout=o.case_timeout + 60)
        else:
            k, m, d, _ = run_forked(fn, setup, rec=c, timeout=o.case_timeout)
        print({0: "PASS", 4: "DISCARD"}.get(k, "FAIL"), m)
        print(d)
        return 1 if bad(k) else 0
    import shutil
    import tempfile
    tmp = tempfile.mkdtemp(prefix="pypbt",
                           dir=os.environ.get("VERIF_TMP") or None)
    t0 = time.monotonic()
    agg = {"evaluations": 0, "cases": 0, "discarded": 0, "nontrivial": 0,
           "labels": {}, "samples": []}
    distinct = set()
    violated, msg, desc, unconf = False, "", "", 0
    first = {w: w for w in range(o.jobs)}
    for rnd in range(12):
        pids = {}
        killed, crashed = set(), set()
        for w in sorted(first):
            for f in ("stop", "w%d.cur" % w):
                if os.path.exists(os.path.join(tmp, f)):
                    os.unlink(os.path.join(tmp, f))
            sys.stdout.flush()
            pid = os.fork()
            if pid == 0:
                try:
                    worker(fn, setup, w, o, "%s/w%d" % (tmp, w), t0, first[w])
                except BaseException:
                    traceback.print_exc()
                os._exit(1)
            pids[pid] = w
        badcases = []
        stop_at = None
        while pids:
            time.sleep(0.01)
            if stop_at:
                open(os.path.join(tmp, "stop"), "w").close()
            for pid, w in list(pids.items()):
                p, st = os.waitpid(pid, os.WNOHANG)
                cur = "%s/w%d.cur" % (tmp, w)
                if p == 0:
                    kill = False
                    if stop_at and time.monotonic() > stop_at:
                        kill = True
                    else:
                        try:
                            i, ts = open(cur).read().split()
                            if time.monotonic() - float(ts) > o.case_timeout:
                                badcases.append(int(i))
                                crashed.add(w)
                                kill = True
                                stop_at = stop_at or time.monotonic() + 5
                        except (OSError, ValueError):
                            pass
                    if kill:
                        try:
                            os.killpg(pid, signal.SIGKILL)
                        except OSError:
                            pass
                        os.waitpid(pid, 0)
                        del pids[pid]
                        killed.add(w)
                    continue
                try:
                    os.killpg(pid, signal.SIGKILL)
                except OSError:
                    pass
                del pids[pid]
                if st != 0 or not os.path.exists("%s/w%d" % (tmp, w)):
                    try:
                        badcases.append(int(open(cur).read().split()[0]))
                        crashed.add(w)
                    except (OSError, ValueError, IndexError):
                        pass
                    stop_at = stop_at or time.monotonic() + 5
                else:
                    b = pickle.load(open("%s/w%d" % (tmp, w), "rb"))["bad"]
                    if b is not None:
                        badcases.append(b)
                        stop_at = stop_at or time.monotonic() + 5
        nxt = {}
        for w in sorted(first):
            nxt.setdefault(w, o.cases)
            try:
                cur = int(open("%s/w%d.cur" % (tmp, w)).read().split()[0])
                if w in crashed:
                    nxt[w] = cur + o.jobs
                elif w in killed:
                    nxt[w] = cur
            except (OSError, ValueError, IndexError):
                pass
            try:
                st = pickle.load(open("%s/w%d" % (tmp, w), "rb"))
            except (OSError, EOFError):
                continue
            nxt[w] = st["next"]
            os.unlink("%s/w%d" % (tmp, w))
            agg["evaluations"] += st["ev"]
            agg["cases"] += st["ran"]
            agg["discarded"] += st["disc"]
            agg["nontrivial"] += st["nt"]
            for l, n in st["labels"].items():
                agg["labels"][l] = agg["labels"].get(l, 0) + n
            agg["samples"] += st["samples"]
            distinct |= st["distinct"]
        for b in sorted(set(badcases)):
            seed = mix((o.seed * 1000003 + b) & M64)
            k, m, d, rec = run_forked(fn, setup, seed=seed, timeout=o.case_timeout)
            if not bad(k):
                got = confirm_history(
                    fn, setup,
                    [mix((o.seed * 1000003 + i) & M64)
                     for i in range(first[b % o.jobs], b, o.jobs)],
                    seed, o.case_timeout)
                if not got:
                    unconf += 1
                    continue
                h, (k, m, d, _) = got
                violated, desc = True, d
                msg = ("after %d other case(s) in the same process: %s"
                       % (len(h), m))
                if o.replay_out:
                    with open(o.replay_out, "w") as f:
                        f.write("# %s: seeds of cases run one after another in one"
                                " process; the last one fails\n" % name)
                        for l in (msg + "\n" + desc).splitlines():
                            f.write("# %s\n" % l)
                        for v in h + [seed]:
                            f.write("@%d\n" % v)
                break
            if rec is None:
                g = Src(seed=seed)
                seq = [g.draw(0) for _ in range(5000)]
                lo, hi = 0, len(seq)
                while lo < hi:
                    mid = (lo + hi) // 2
                    if bad(run_forked(fn, setup, rec=seq[:mid],
                                      timeout=o.case_timeout)[0]):
                        hi = mid
                    else:
                        lo = mid + 1
                rec = seq[:hi]
            best, info = shrink(fn, setup, list(rec), (k, m, d), 60,
                                o.case_timeout)
            n = sum(bad(run_forked(fn, setup, rec=best,
                                   timeout=o.case_timeout)[0]) for _ in range(3))
            if n < 3:
                best, info = list(rec), (k, m, d)
                n = sum(bad(run_forked(fn, setup, rec=best,
                                       timeout=o.case_timeout)[0])
                        for _ in range(3))
            if n < 3:
                unconf += 1
                continue
            violated, msg, desc = True, info[1], info[2]
            if o.replay_out:
                with open(o.replay_out, "w") as f:
                    f.write("# %s: shrunk failing choice sequence\n" % name)
                    for l in (msg + "\n" + desc).splitlines():
                        f.write("# %s\n" % l)
                    for v in best:
                        f.write("%d\n" % v)
            break
        if violated or not badcases or time.monotonic() - t0 > o.seconds:
            break
        # Nothing confirmed: go on with the cases that are left.
        first = {w: n for w, n in nxt.items() if n < o.cases}
        if not first:
            break
    shutil.rmtree(tmp, ignore_errors=True)
    agg["samples"] = agg["samples"][:8]
    agg["distinct_nontrivial"] = len(distinct)
    agg.update(violated=violated, unconfirmed=unconf, message=msg, case=desc,
               wall_s=time.monotonic() - t0)
    js = json.dumps(agg)
    if o.out:
        with open(o.out, "w") as f:
            f.write(js)
    print(js)
    return 1 if violated else 0


def main(props, argv=None):
    """props: {name: (fn, setup or None)}"""
    argv = argv if argv is not None else sys.argv[1:]
    name = None
    for i, a in enumerate(argv):
        if a == "--property":
            name = argv[i + 1]
    if name not in props:
        print("unknown property", name, file=sys.stderr)
        sys.exit(2)
    fn, setup = props[name]
    sys.exit(run(name, fn, setup, argv))
