"""Harnesses (how each is built from /repo's tree) and checks (what decides
each property)."""
import os
import re
import shutil
import sys

import vbuild
from vbuild import REPO, VERIF

R = os.path.join
CC, CXX = "clang", "clang++"
SAN = ["-fsanitize=address", "-fno-omit-frame-pointer"]
INC = ["-I" + R(VERIF, "lib"), "-I" + REPO, "-I" + R(REPO, "include")]
# Reads of uninitialized variables give the same odd value in every run.
CFLAGS = ["-O1", "-g", "-w", "-fPIC", "-ftrivial-auto-var-init=pattern"]

RT = R(REPO, "src/Runtime/CMakeLists.txt")


def cruntime(exclude=()):
    s = vbuild.cmake_sources(RT, "cruntime", [
        "OMExternalConstant.c", "OMIndexLookup.c", "OMInstrument.c",
        "OMRandomNormal.c", "OMRandomUniform.c", "OMResize.c", "OMSort.c",
        "OMTopK.c", "OMTensor.c", "OMTensorList.c", "OMUnique.c",
        "OnnxDataType.c", "../Support/SmallFPConversion.c"])
    return [x for x in s if os.path.basename(x) not in exclude]


def tensorutils():
    return vbuild.cmake_sources(RT, "OMTensorUtils",
                                ["OMTensor.cpp", "OMTensorList.cpp"])


def debugruntime():
    return vbuild.cmake_sources(RT, "OMDebugRuntime",
                                ["OMTensorHelper.cpp",
                                 "OMTensorListHelper.cpp"])


def cpp_runtime():
    return (cruntime(("OMTensor.c", "OMTensorList.c")) + tensorutils())


H = {}      # name -> builder function returning the argv prefix
_built = {}


def harness(name):
    def deco(f):
        H[name] = f
        return f
    return deco


def build(name):
    if name not in _built:
        _built[name] = H[name]()
    return list(_built[name])


def all_harnesses():
    return list(H)


def simple(name, hsrc, srcs, defs=(), san=SAN, libs=(), cflags=CFLAGS,
           extra_inc=(), harness_flags=()):
    """Compile harness sources + repo sources and link them."""
    hs = [R(VERIF, "harness", h) for h in
          ([hsrc] if isinstance(hsrc, str) else hsrc)]
    base = cflags + san + list(defs) + INC + list(extra_inc)

    def flags(s):
        f = list(base)
        if s.endswith(".cpp"):
            f += ["-std=c++17"]
        if s in hs:
            f += list(harness_flags)
        return f
    objs = vbuild.objs(hs + srcs, flags,
                       lambda s: CC if s.endswith(".c") else CXX)
    exe = vbuild.link(objs, san + ["-lpthread", "-ldl", "-lm"] + list(libs),
                      CXX, name)
    return [exe]


WRAP = ["-Wl,--wrap=malloc", "-Wl,--wrap=calloc", "-Wl,--wrap=free"]


@harness("rt_tensor_c")
def _():
    return simple("rt_tensor_c", "rt_tensor.cpp", cruntime(), ["-DRT_C"],
                  libs=WRAP)


@harness("rt_tensor_cpp")
def _():
    return simple("rt_tensor_cpp", "rt_tensor.cpp", cpp_runtime(),
                  ["-DRT_CPP"], libs=WRAP)


LLVM_INC = ["-isystem", "/usr/lib/llvm-20/include"]
LLVM_LIB = ["-L/usr/lib/llvm-20/lib", "-Wl,-rpath,/usr/lib/llvm-20/lib",
            "-lLLVM-20"]
MLIR_LIB = LLVM_LIB + ["-lMLIR"]


@harness("rt_kernels")
def _():
    return simple("rt_kernels", "rt_kernels.cpp", cruntime(),
                  san=["-fsanitize=address,undefined",
                       "-fno-sanitize=alignment,function",
                       "-fno-sanitize-recover=undefined"])


@harness("rt_instr")
def _():
    return simple("rt_instr", "rt_instr.cpp", cruntime(),
                  libs=["-Wl,--wrap=popen", "-Wl,--wrap=pclose"])


@harness("rt_hash")
def _():
    return simple("rt_hash", "rt_hash.cpp",
                  [R(REPO, "src/Runtime/OMIndexLookup.c"),
                   R(REPO, "src/Conversion/ONNXToKrnl/PerfectHash.cpp")],
                  extra_inc=LLVM_INC, libs=LLVM_LIB)


# Fake model libraries: (file, tag, constant added, omitted symbols)
FAKE_MODELS = [("MdlA.so", "_mdla", 10, []), ("mdlb.so", "_mdlb", 20, ["INFO"]),
               ("mdld.so", "", 30, ["PRINT"]), ("mdle.so", "_mdle", 40, ["MAIN"]),
               ("mdlf.so", "_mdlf", 50, ["INSIG"]),
               ("mdlg.so", "_mdlg", 60, ["OUTSIG"]),
               ("mdlh.so", "_mdlh", 70, ["QUERY"])]


def fake_models():
    rt = [R(REPO, "src/Runtime", f)
          for f in ("OMTensor.c", "OMTensorList.c", "OnnxDataType.c")]
    base = CFLAGS + INC
    robjs = vbuild.objs(rt, lambda s: base, lambda s: CC)
    out = []
    for name, tag, k, no in FAKE_MODELS:
        o = vbuild.obj(R(VERIF, "harness/fake_model.c"), base + [
            "-DTAG=" + tag, "-DKADD=%d" % k] + ["-DNO_" + x for x in no], CC)
        out.append(vbuild.link([o] + robjs, ["-Wl,-Bsymbolic", "-lm"], CC,
                               name, shared=True))
    return out


def session_srcs():
    return (cruntime(("OMTensor.c", "OMTensorList.c", "OMInstrument.c"))
            + tensorutils() + debugruntime()
            + vbuild.cmake_sources(RT, "OMExecutionSession",
                                   ["ExecutionSession.cpp"]))


@harness("session")
def _():
    return simple("session", "session.cpp", session_srcs()) + fake_models()


@harness("rt_fill")
def _():
    return simple("rt_fill", "rt_fill.cpp",
                  [R(REPO, "src/Support/SmallFPConversion.c")]
                  + tensorutils() + debugruntime()
                  + [R(REPO, "src/Runtime/OnnxDataType.c")],
                  san=["-fsanitize=address,undefined",
                       "-fno-sanitize=alignment,function",
                       "-fno-sanitize-recover=undefined"])


PYVT = "/opt/veriftools/pyvenv/bin/python"


def pybind_overlay():
    """Ubuntu's pybind11 2.11 predates numpy 2 (no numpy 1 is installed): give
    its view of numpy's descriptor the layout of numpy 2."""
    d = R(vbuild.BUILD, "pyov")
    t = open("/usr/include/pybind11/numpy.h").read()
    a = t.index("struct PyArrayDescr_Proxy {")
    b = t.index("};", a) + 2
    t = t[:a] + """struct PyArrayDescr_Proxy {
    PyObject_HEAD
    PyObject *typeobj;
    char kind;
    char type;
    char byteorder;
    char flags;
    int type_num;
    uint64_t flags64;
    Py_ssize_t elsize;
    Py_ssize_t alignment;
    PyObject *metadata;
    Py_hash_t hash;
    void *reserved_null[2];
    char *subarray;
    PyObject *fields;
    PyObject *names;
};""" + t[b:]
    t = re.sub(r'#include "([^"]+)"', r"#include <pybind11/\1>", t)
    os.makedirs(R(d, "pybind11"), exist_ok=True)
    vbuild.write_if_changed(R(d, "pybind11/numpy.h"), t)
    return ["-I" + d, "-I/usr/include/python3.12"]


@harness("py_session")
def _():
    src = R(REPO, "src/Runtime/python/PyExecutionSession.cpp")
    srcs = ([src, R(REPO, "src/Runtime/ExecutionSession.cpp"),
             R(REPO, "src/Support/SmallFPConversion.c")]
            + [R(REPO, "src/Runtime/OnnxDataType.c")]
            + tensorutils() + debugruntime())
    inc = pybind_overlay() + INC
    ob = vbuild.objs(srcs, lambda s: CFLAGS + inc + (
        ["-std=c++17", "-fvisibility=hidden"] if s.endswith(".cpp") else []),
        lambda s: CC if s.endswith(".c") else CXX)
    ext = vbuild.link(ob, ["-lm", "-ldl"], CXX, "PyRuntimeC.so", shared=True)
    rt = [R(REPO, "src/Runtime", f)
          for f in ("OMTensor.c", "OMTensorList.c", "OnnxDataType.c",
                    "../Support/SmallFPConversion.c")]
    mo = vbuild.objs([R(VERIF, "harness/py_model.c")] + rt,
                     lambda s: CFLAGS + INC, lambda s: CC)
    model = vbuild.link(mo, ["-Wl,-Bsymbolic", "-lm"], CC, "PyModel.so",
                        shared=True)
    return [PYVT, R(VERIF, "harness/py_session.py"), ext, model, REPO]


def glob_(d, suf):
    d = R(REPO, d)
    return sorted(R(d, f) for f in os.listdir(d) if f.endswith(suf))


@harness("java_api")
def _():
    """A jar like those of --EmitJNI: classes and libmodel.so."""
    jni = R(REPO, "src/Runtime/jni")
    java = [R(b, f) for b, _, fs in os.walk(R(jni, "src"))
            for f in fs if f.endswith(".java") and
            f != "OMRunner.java"]      # needs a JSON library
    drv = R(VERIF, "harness/java/Driver.java")
    cs = [R(jni, f) for f in sorted(os.listdir(jni)) if f.endswith(".c")] + [
        R(VERIF, "harness/java_model.c")] + [
        R(REPO, "src/Runtime", f)
        for f in ("OMTensor.c", "OMTensorList.c", "OnnxDataType.c",
                  "../Support/SmallFPConversion.c")]
    deps = sorted(java) + [drv] + cs + glob_(
        "include/onnx-mlir/Runtime", (".h", ".inc")) + [
        R(jni, f) for f in sorted(os.listdir(jni)) if f.endswith(".h")]
    home = os.path.dirname(os.path.dirname(os.path.realpath(
        shutil.which("javac"))))

    def do(tmp):
        d = tmp + ".d"
        try:
            cls, inc = R(d, "cls"), R(d, "inc")
            os.makedirs(cls)
            # No log4j here: as without it in a user's class path.
            vbuild.run(["javac", "-nowarn", "-h", inc, "-d", cls] +
                       sorted(java) + [drv])
            vbuild.run(
                [CC, "-shared"] + CFLAGS + [
                    "-fstack-protector-all", "-fno-builtin",
                    "-I" + inc,
                    "-I" + R(home, "include"), "-I" + R(home, "include/linux")]
                + INC + cs + ["-Wl,--wrap=malloc,--wrap=free,--wrap=calloc",
                              "-lm", "-lpthread", "-o", R(cls, "libmodel.so")])
            vbuild.run(["jar", "cf", tmp, "-C", cls, "."])
        finally:
            shutil.rmtree(d, ignore_errors=True)
        return deps
    jar = vbuild.cached(["java_api", "2"] + deps, do)
    return ["/usr/bin/env", "JAPI_JAR=" + jar, PYVT,
            R(VERIF, "harness/java_api.py")]


def script(name):
    @harness(name)
    def _():
        return [PYREPO, R(VERIF, "harness", name + ".py")]


PYREPO = "/opt/vp/venv/bin/python"      # has numpy and onnx
for _n in ("py_cache", "py_run", "py_wrap"):
    script(_n)

COMP = R(REPO, "src/Compiler")


@harness("driver")
def _():
    o = vbuild.obj(R(VERIF, "harness/fakecc.c"), ["-O1", "-w"], CC)
    cc = vbuild.link([o], [], CC, "fakecc")
    return simple("driver", "driver.cpp", [R(COMP, f) for f in (
        "Command.cpp", "CommandUtils.cpp", "OMCompile.cpp")], san=[]) + [cc]

ELEM = R(REPO, "src/Dialect/ONNX/ElementsAttr")


@harness("elements")
def _():
    srcs = [R(ELEM, f) for f in (
        "BType.cpp", "DisposableElementsAttr.cpp", "DisposablePool.cpp",
        "ElementsAttrBuilder.cpp", "ElementsAttrHelper.cpp", "Strides.cpp",
        "WideNum.cpp")] + [R(REPO, "src/Support", f) for f in (
            "SmallFP.cpp", "TypeUtilities.cpp", "SmallFPConversion.c")]
    return simple("elements", "elements.cpp", srcs,
                  san=["-fsanitize=address,integer-divide-by-zero,shift,"
                       "bounds,bool,signed-integer-overflow,"
                       "float-cast-overflow",
                       "-fno-sanitize-recover=all"],
                  extra_inc=LLVM_INC, libs=MLIR_LIB)


@harness("cc_model")
def _():
    import omcc
    omcc.server()
    return ["/opt/vp/venv/bin/python", R(VERIF, "harness/cc_model.py")]


def run(h, p, quick, thorough, **kw):
    return dict(h=h, p=p, quick=quick, thorough=thorough, **kw)


CC_RULE = ("A case is a generated model and inputs, compiled by /repo's compiler "
           "with generated options, run and compared with the ONNX reference "
           "evaluator: ")

NNPA = R(REPO, "src/Accelerators/NNPA")
NNPA_INC = ["-I" + R(VERIF, "harness/nnpa")]


@harness("rt_nnpa")
def _():
    d = R(NNPA, "Support/Stickify")
    return simple(
        "rt_nnpa", "rt_nnpa.cpp",
        [R(d, f) for f in sorted(os.listdir(d)) if f.endswith((".c", ".cpp"))],
        ["-DLLVM_DISABLE_ABI_BREAKING_CHECKS_ENFORCING=1"],
        san=["-fsanitize=address,undefined",
             "-fno-sanitize=alignment,function", "-fno-sanitize-recover=all",
             "-fno-omit-frame-pointer"],
        extra_inc=NNPA_INC + LLVM_INC)


@harness("rt_zdnnx")
def _():
    # With gcc: clang's OpenMP runtime is not installed.
    d = R(NNPA, "Runtime/zdnnx")
    srcs = [R(d, f) for f in sorted(os.listdir(d)) if f.endswith(".c")]
    san = ["-fsanitize=address"]
    base = CFLAGS + san + INC + NNPA_INC
    for name, fl in (("libzdnnx_seq.so", []),
                     ("libzdnnx_omp.so", ["-DZDNNX_WITH_OMP", "-fopenmp"])):
        o = vbuild.objs(srcs, lambda s: base + fl, lambda s: "gcc")
        vbuild.link(o, san + fl + ["-lm"], "gcc", name, shared=True)
    o = vbuild.objs([R(VERIF, "harness/rt_zdnnx.cpp")],
                    lambda s: base + ["-std=c++17", "-fopenmp"],
                    lambda s: "g++")
    return [vbuild.link(o, san + ["-fopenmp", "-rdynamic", "-ldl",
                                  "-lpthread"], "g++", "rt_zdnnx")]


CHECKS = {
    "R01": dict(
        rule="A case is a generated history of tensor/list operations run "
             "against a reference model (state_*) or one tensor with "
             "generated shape/strides/elements (access_cpp); histories count "
             "as non-trivial with >=4 different operations over >=2 tensors, "
             "access cases with rank>=2 and more than 3 elements.",
        runs=[run("rt_tensor_c", "state_c", (60000, 10), (2000000, 240)),
              run("rt_tensor_cpp", "state_cpp", (60000, 10), (2000000, 240)),
              run("rt_tensor_cpp", "access_cpp", (40000, 8),
                  (2000000, 180))]),
    "R02": dict(
        rule="A case is a generated history of create / replace / transfer / "
             "destroy operations with every heap call of the library tracked "
             "and allocation failures injected at generated points; "
             "non-trivial with >=4 different operations over >=2 tensors or "
             "with an injected failure that hit.",
        runs=[run("rt_tensor_c", "own_c", (250000, 15), (3000000, 300)),
              run("rt_tensor_cpp", "own_cpp", (250000, 15), (3000000, 300))]),
    "R03": dict(
        rule="A case is one tensor (13 element types, rank 0-6, dense or "
             "strided, special values) printed through a generated message "
             "of text and format specifiers and compared byte for byte with "
             "a reference printer; non-trivial when a specifier was used on "
             "more than one element.",
        runs=[run("rt_tensor_c", "print_c", (300000, 15), (3000000, 300)),
              run("rt_tensor_cpp", "print_cpp", (300000, 15),
                  (3000000, 300))]),
    "R04": dict(
        rule="A case is one tensor (12 element types, rank 1-6, empty and "
             "padded layouts, no NaN) sorted along its last axis and compared "
             "with a reference stable sort, or one array given to the "
             "portable quick sort; non-trivial when a slice has more than two "
             "elements and equal values occur (sort), or n>3 (quick sort).",
        runs=[run("rt_kernels", "sort", (40000, 12), (3000000, 240)),
              run("rt_kernels", "quicksort", (40000, 12), (3000000, 240))]),
    "R05": dict(
        rule="A case is one tensor and K; the first K indices are compared "
             "with those of a reference stable sort (as a set when sorted=0); "
             "non-trivial when a slice has more than two elements and equal "
             "values occur.",
        runs=[run("rt_kernels", "topk", (600000, 20), (4000000, 400))]),
    "R06": dict(
        rule="A case is one tensor (11 element types, rank 1-6), axis or "
             "flattened, sorted or not, with each optional output present, "
             "NULL or empty, compared with the ONNX definition; non-trivial "
             "when there is more than one unique slice and a repeated one.",
        runs=[run("rt_kernels", "unique", (600000, 20), (4000000, 400))]),
    "R07": dict(
        rule="A case is one float tensor of rank 1-4 resized by sizes or "
             "scales, compared with a double precision separable reference; "
             "non-trivial when the shape changes and there is more than one "
             "element.",
        runs=[run("rt_kernels", "resize", (20000, 15), (2000000, 400))]),
    "R08": dict(
        rule="A case is one generator call repeated with the same and with "
             "another seed, checked for reproducibility, range, exact extent "
             "and (4000 values) moments; non-trivial with more than 8 "
             "elements.",
        runs=[run("rt_kernels", "random", (80000, 15), (1000000, 240))]),
    "R09": dict(
        rule="A case is one generated dictionary; every key and some unknown "
             "keys are looked up through the compiled-model lookup; "
             "non-trivial with more than two keys.",
        runs=[run("rt_hash", "hash_i64", (20000, 10), (1000000, 240)),
              run("rt_hash", "hash_str", (20000, 10), (1000000, 240))]),
    "R10": dict(
        rule="A case is a history of load / address / unload / path changes "
             "over four constant files (some missing or shorter than "
             "expected), checked against a model; non-trivial when something "
             "was loaded and a load failed or an unload happened (extconst), or the "
             "(sparse) file is over 1 GB (extbig).",
        runs=[run("rt_kernels", "extconst", (100000, 20), (500000, 240)),
              run("rt_kernels", "extbig", (2000, 10), (50000, 120))]),
    "R12": dict(
        rule="A case converts 512 consecutive 16-bit encodings of both "
             "formats and 256 floats chosen around rounding boundaries; every "
             "case is non-trivial. 128 blocks cover all 16-bit encodings.",
        runs=[run("rt_kernels", "smallfp", (60000, 15), (400000, 300))]),
    "R11": dict(
        rule="A case is a history of inference runs (instrument points, "
             "environment switches, report prints) whose report files are "
             "parsed and compared with the expected lines; non-trivial with "
             "more than three reported points.",
        runs=[run("rt_instr", "instr", (5000, 20), (200000, 300))]),
    "S01": dict(
        rule="A case is a history of session constructions (right, wrong and "
             "incomplete libraries, tags, paths), runs through the four run "
             "interfaces (success, error code, signal), entry point changes, "
             "queries, concurrent runs and destructions on up to several live "
             "sessions over fake model libraries, checked against a model; "
             "non-trivial with >=3 different operations.",
        runs=[run("session", "session", (12000, 30), (500000, 400))]),
    "S03": dict(
        rule="A case is one generated signature (types, static and dynamic "
             "dimensions, JSON spacing), shape overrides, value specs and "
             "per-type bounds, sometimes with one defect, whose input list is "
             "compared with the documented meaning (fill), or one standard "
             "element type (types); non-trivial when a list with more than "
             "three elements was made.",
        runs=[run("rt_fill", "fill", (60000, 20), (3000000, 400)),
              run("rt_fill", "types", (4000, 5), (40000, 20))]),
    "S02": dict(
        rule="A case is a history of Python session runs over generated numpy "
             "arrays (16 element types, C / Fortran / transposed / strided / "
             "reversed / broadcast / read-only layouts, strings) on a library "
             "that echoes its inputs through the strides it is given, with "
             "failing runs, signals, unsupported arrays, shared and constant "
             "outputs, memory accounting; non-trivial with two different "
             "operations and a run on more than one element.",
        runs=[run("py_session", "pysession", (4000, 40), (200000, 400))]),
    "J01": dict(
        rule="A case is a history of tensors made from arrays, buffers and "
             "shapes of every type, getters and setters, lists, and calls of "
             "a model (with wrong types, sizes, byte orders and failing "
             "models); non-trivial with a call that returned elements.",
        runs=[run("java_api", "japi", (8000, 60), (100000, 500))]),
    "T01": dict(
        rule="A case is a history of puts, gets and restarts of the cache "
             "with generated capacities, directories, damage of files and "
             "writes that stop half way; non-trivial when an entry is found "
             "again after an eviction, a restart or damage.",
        runs=[run("py_cache", "cache", (15000, 50), (300000, 400))]),
    "T02": dict(
        rule="compare: lists of arrays near the limits of the tolerances, "
             "through files and arrays; runmodel: a history of invocations "
             "with generated options, saved and cached models, references and "
             "changing models, of which each is predicted; non-trivial when "
             "a comparison of elements decides.",
        runs=[run("py_run", "compare", (20000, 30), (300000, 200)),
              run("py_run", "runmodel", (6000, 60), (300000, 400))]),
    "T03": dict(
        rule="dock, ort: a history of sessions over models, options, output "
             "names, engines, images and compiler failures, and of inferences "
             "with lists or dictionaries; cli: one command line with generated "
             "paths; non-trivial with a compilation (dock), an inference "
             "(ort) or a path (cli).",
        runs=[run("py_wrap", "dock", (15000, 40), (300000, 250)),
              run("py_wrap", "cli", (3000, 25), (100000, 150)),
              run("py_wrap", "ort", (3000, 30), (100000, 200))]),
    "D01": dict(
        rule="A case is a list of arguments written as one flag string with "
             "random quoting and escaping and parsed back (flags), or one "
             "generated configuration (model in the argument or the flags, "
             "-o forms, emission targets, tags, look-alike flags, output "
             "path) whose predicted input, output and tag are compared with "
             "the documented meaning (predict); non-trivial with more than "
             "one argument (flags) or two (predict).",
        runs=[run("driver", "flags", (200000, 12), (5000000, 200)),
              run("driver", "predict", (200000, 15), (5000000, 300))]),
    "D02": dict(
        rule="A case is a history of appends, resets, prints and executions "
             "of one command (found, missing or not executable; working "
             "directories; log files; exit codes; signals; interrupted "
             "waits) whose program reports what it was given; non-trivial "
             "with two different outcomes.",
        runs=[run("driver", "command", (6000, 25), (300000, 400))]),
    "D03": dict(
        rule="A case is a history of compilations on two sessions (local), "
             "of concurrent compilations (threads) or of the set-up of a "
             "container session and compilations in it (container) over a "
             "fake compiler and engine that report what they were given and "
             "fail on request; non-trivial with two compilations (local), "
             "always (threads), or when the session was set up (container).",
        runs=[run("driver", "local", (5000, 20), (300000, 240)),
              run("driver", "threads", (1500, 12), (100000, 200)),
              run("driver", "container", (3000, 20), (100000, 240))]),
    "E01": dict(
        rule="A case is a history of up to 12 operations on constants of "
             "generated types, shapes and representations, each result read "
             "through a generated way and compared with a reference; "
             "non-trivial with four different operations.",
        runs=[run("elements", "algebra", (60000, 20), (6000000, 500))]),
    "E02": dict(
        rule="A case is a chain of casts and some other operations on "
             "constants compared with a reference; non-trivial when "
             "something was cast.",
        runs=[run("elements", "cast", (150000, 20), (6000000, 400))]),
    "E03": dict(
        rule="A case is a history of module edits, collections, scrubs, "
             "prints and parses (pool), one scrub of up to 60 attributes in "
             "parallel (scrub) or the creation of attributes in several "
             "threads (threads); non-trivial with two attributes and a "
             "collection or scrub (pool), more than 10 attributes (scrub), "
             "always (threads).",
        runs=[run("elements", "pool", (60000, 12), (3000000, 240)),
              run("elements", "scrub", (15000, 8), (500000, 120)),
              run("elements", "threads", (8000, 8), (500000, 120))]),
    "C01": dict(
        rule=CC_RULE + "one elementwise operator; non-trivial when a tensor "
             "has more than one element.",
        runs=[run("cc_model", "elem", (9000, 80), (400000, 900))]),
    "C02": dict(
        rule=CC_RULE + "one operator that moves or selects data; non-trivial "
             "when a tensor has more than one element.",
        runs=[run("cc_model", "move", (9000, 100), (400000, 900))]),
    "C03": dict(
        rule=CC_RULE + "one reduction, product, convolution, pooling, "
             "normalization or quantization operator; non-trivial when a "
             "tensor has more than one element.",
        runs=[run("cc_model", "math", (9000, 90), (400000, 900))]),
    "C04": dict(
        rule=CC_RULE + "two to eight operators using each other's results "
             "(graphs; non-trivial with more than two operators), or "
             "operator sequences that a rewriting rule of the compiler "
             "recognises, or nearly (idioms; non-trivial with two "
             "operators).",
        runs=[run("cc_model", "graphs", (7000, 80), (400000, 1000)),
              run("cc_model", "idioms", (7000, 80), (400000, 1000))]),
    "C05": dict(
        rule="A case is a generated model of several operators whose "
             "inferred types are compared for every value, under "
             "--shapeInformation, forced dynamic sizes and pass options "
             "(shapes; non-trivial with more than two operators), or a "
             "one-operator model whose signature strings are compared with "
             "actual tensors (signature; non-trivial with two inputs).",
        runs=[run("cc_model", "shapes", (6000, 70), (200000, 500)),
              run("cc_model", "signature", (2500, 40), (200000, 400))]),
    "C06": dict(
        rule=CC_RULE + "one RNN, GRU or LSTM; non-trivial when a tensor has "
             "more than one element.",
        runs=[run("cc_model", "seq", (5000, 90), (200000, 600))]),
    "N01": dict(
        rule="A case is an array of up to 70 floats near codes, middles of "
             "codes, range ends and specials, or all 65536 codes, compared "
             "with a reference encoder and decoder; non-trivial with more "
             "than one value.",
        runs=[run("rt_nnpa", "dlf16", (300000, 15), (20000000, 240))]),
    "N02": dict(
        rule="A case is a tensor in one of the layouts (or concatenated "
             "gates, or int8 weights), stickified and compared byte for byte "
             "with a reference of the data layout; non-trivial when it has "
             "more than one stick or page.",
        runs=[run("rt_nnpa", "stickify", (40000, 30), (2000000, 400))]),
    "N03": dict(
        rule="A case is an elementwise or softmax operation (map), a matrix "
             "product (matmul) or a split and its tiles (tiles), under "
             "generated limits of the accelerator and numbers of threads, "
             "with a stand-in for the accelerator that refuses what exceeds "
             "its limits; the result is compared with that of one unlimited "
             "call; non-trivial when the operation is split, or its data has "
             "padding.",
        runs=[run("rt_zdnnx", "map", (20000, 25), (400000, 300)),
              run("rt_zdnnx", "matmul", (20000, 25), (400000, 300)),
              run("rt_zdnnx", "tiles", (20000, 20), (400000, 240))]),
}
