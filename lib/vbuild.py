"""Content-hash cached builder used by every check.

Objects are keyed by the command and by the content of every file of /repo and
/verif that took part in the compilation (taken from the compiler's depfile),
so a check always reflects /repo's current working tree, and what setup_cmd
built is reused only where nothing that matters has changed.
"""
import concurrent.futures as cf
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import threading

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
NPROC = os.cpu_count() or 4

_memo = {}
_memo_lock = threading.Lock()


class BuildError(Exception):
    pass


def fhash(path):
    try:
        st = os.stat(path)
    except OSError:
        return None
    k = (path, st.st_mtime_ns, st.st_size)
    with _memo_lock:
        h = _memo.get(k)
    if h is None:
        with open(path, "rb") as f:
            h = hashlib.sha256(f.read()).hexdigest()
        with _memo_lock:
            _memo[k] = h
    return h


def sha(s):
    return hashlib.sha256(s.encode()).hexdigest()


def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       text=True, errors="replace", **kw)
    if r.returncode:
        raise BuildError("command failed (%d): %s\n%s" % (
            r.returncode, " ".join(cmd)[:1500], r.stdout[-6000:]))
    return r.stdout


def parse_depfile(path):
    with open(path, errors="replace") as f:
        t = f.read()
    t = t.replace("\\\n", " ")
    t = t.split(":", 1)[1] if ":" in t else ""
    out = []
    for tok in re.findall(r"(?:\\ |\S)+", t):
        out.append(tok.replace("\\ ", " "))
    return out


def tracked(dep):
    d = os.path.realpath(dep)
    return not (d.startswith("/usr/") or d.startswith("/opt/"))


def cached(key_parts, outputs_fn, deps_hint=None):
    """Generic cached step: key_parts -> list of entries with dep hashes.

    outputs_fn(outpath) performs the step and returns the list of dep files.
    """
    base = sha("\0".join(key_parts))[:32]
    cdir = os.path.join(BUILD, "cache", base[:2])
    os.makedirs(cdir, exist_ok=True)
    idx = os.path.join(cdir, base + ".json")
    entries = []
    if os.path.exists(idx):
        try:
            entries = json.load(open(idx))
        except ValueError:
            entries = []
    for e in entries:
        if os.path.exists(e["out"]) and all(
                fhash(p) == h for p, h in e["deps"].items()):
            return e["out"]
    tmp = os.path.join(cdir, "%s.%d.%d.tmp" % (
        base, os.getpid(), threading.get_ident()))
    deps = outputs_fn(tmp)
    dh = {d: fhash(d) for d in deps if tracked(d)}
    out = os.path.join(cdir, base + "." + sha(json.dumps(
        dh, sort_keys=True))[:16] + ".o")
    os.replace(tmp, out)
    entries = [{"out": out, "deps": dh}] + [
        e for e in entries if e["out"] != out][:3]
    t2 = idx + ".%d.tmp" % os.getpid()
    with open(t2, "w") as f:
        json.dump(entries, f)
    os.replace(t2, idx)
    return out


def obj(src, flags, cc):
    """Compile one source; returns the object path."""
    def do(tmp):
        dep = tmp + ".d"
        run([cc] + flags + ["-MD", "-MF", dep, "-MT", "x", "-c", src,
                            "-o", tmp])
        deps = [os.path.normpath(os.path.join(os.getcwd(), d))
                for d in parse_depfile(dep)]
        os.unlink(dep)
        return deps
    return cached([cc] + flags + [src], do)


def objs(srcs, flags_for, cc_for, jobs=None):
    with cf.ThreadPoolExecutor(jobs or NPROC) as ex:
        fs = [ex.submit(obj, s, flags_for(s), cc_for(s)) for s in srcs]
        return [f.result() for f in fs]


def link(objects, flags, cc, name, shared=False):
    def do(tmp):
        run([cc] + (["-shared"] if shared else []) + objects + flags +
            ["-o", tmp])
        return objects
    o = cached([cc, "link", name] + objects + flags, do)
    d = os.path.join(BUILD, "bin")
    os.makedirs(d, exist_ok=True)
    final = os.path.join(d, name)
    # The final name is a convenience copy: hard link to the cached output.
    tmp = final + ".%d.tmp" % os.getpid()
    if os.path.exists(tmp):
        os.unlink(tmp)
    os.chmod(o, 0o755)
    try:
        os.link(o, tmp)
    except OSError:
        shutil.copy(o, tmp)
    os.replace(tmp, final)
    if os.path.exists(tmp):  # both names were links to the same file
        os.unlink(tmp)
    return final


def write_if_changed(path, text):
    try:
        if open(path).read() == text:
            return
    except OSError:
        pass
    tmp = path + ".%d.tmp" % os.getpid()
    with open(tmp, "w") as f:
        f.write(text)
    os.replace(tmp, path)


def cmake_sources(cmakelists, target, fallback):
    """Source files of add_onnx_mlir_library(target ...) in a CMakeLists."""
    d = os.path.dirname(cmakelists)
    try:
        t = open(cmakelists).read()
    except OSError:
        return [os.path.join(d, f) for f in fallback]
    t = re.sub(r"#[^\n]*", "", t)
    m = re.search(r"add_onnx_mlir_\w+\(\s*%s\b([^)]*)\)" % re.escape(target), t)
    out = []
    if m:
        for tok in m.group(1).split():
            p = tok.replace("${CMAKE_CURRENT_SOURCE_DIR}", d)
            p = p.replace("${ONNX_MLIR_SRC_ROOT}", REPO)
            p = p.replace("${CMAKE_SOURCE_DIR}", REPO)
            if not os.path.isabs(p):
                p = os.path.join(d, p)
            p = os.path.normpath(p)
            if p.endswith((".c", ".cpp")) and os.path.exists(p):
                out.append(p)
    have = {os.path.basename(p) for p in out}
    for f in fallback:
        p = os.path.normpath(os.path.join(d, f))
        if os.path.basename(f) not in have and os.path.exists(p):
            out.append(p)
    return out
