"""Builds onnx-mlir's compiler (importer, ONNX and Krnl dialects, transforms,
lowering) from /repo's tree against the MLIR 20 that is installed here.

The pinned tree targets a newer MLIR.  What differs is bridged outside /repo:
an overlay of a few installed headers (new spellings added, nothing taken
away), and a few one-line respellings of sources at calls whose MLIR API
changed.  Everything else is the tree as it is.
"""
import concurrent.futures as cf
import os
import re

import vbuild
from vbuild import REPO, VERIF, BUILD, BuildError

LLVM = "/usr/lib/llvm-20"
INCD = LLVM + "/include"
OV = os.path.join(BUILD, "ov")
OVI = os.path.join(OV, "include")
GEN = os.path.join(OV, "gen")
SRC = os.path.join(OV, "src")
CXX = "clang++"

# --- overlay headers ------------------------------------------------------

_CREATE = r'''
  // Newer spelling of builder.create<Op>(loc, ...).
  template <typename B, typename St, typename Seq, typename... A>
  struct OvCanBuild : std::false_type {};
  template <typename... A, typename C = ConcreteType>
  static auto ovHasBuild(int)
      -> decltype(C::build(std::declval<OpBuilder &>(),
                      std::declval<OperationState &>(), std::declval<A>()...),
          std::true_type{}) {
    return {};
  }
  template <typename... A>
  static std::false_type ovHasBuild(...) {
    return {};
  }
  template <typename B, typename... A>
  static ConcreteType ovDropLast(B &b, Location loc, A &&...args) {
    auto t = std::forward_as_tuple(std::forward<A>(args)...);
    return ovDropLastImpl(
        b, loc, t, std::make_index_sequence<sizeof...(A) - 1>());
  }
  template <typename B, typename T, size_t... I>
  static ConcreteType ovDropLastImpl(
      B &b, Location loc, T &t, std::index_sequence<I...>) {
    return b.template create<ConcreteType>(
        loc, std::get<I>(std::move(t))...);
  }
  template <typename B, typename L, typename... A>
  static ConcreteType create(B &b, L &&loc, A &&...args) {
    if constexpr (decltype(ovHasBuild<A &&...>(0))::value ||
                  sizeof...(A) == 0)
      return b.template create<ConcreteType>(loc, std::forward<A>(args)...);
    else
      return ovDropLast(b, loc, std::forward<A>(args)...);
  }

'''

_ARITH = {
    "class ConstantIntOp": '''
  template <typename B, typename... A>
  static ConstantIntOp create(B &b, Location l, Type t, int64_t v) {
    return b.template create<ConstantIntOp>(l, v, t);
  }
  template <typename B>
  static ConstantIntOp create(B &b, Location l, int64_t v, unsigned w) {
    return b.template create<ConstantIntOp>(l, v, w);
  }
''',
    "class ConstantFloatOp": '''
  template <typename B>
  static ConstantFloatOp create(
      B &b, Location l, FloatType t, const APFloat &v) {
    return b.template create<ConstantFloatOp>(l, v, t);
  }
''',
    "class ConstantIndexOp": '''
  template <typename B>
  static ConstantIndexOp create(B &b, Location l, int64_t v) {
    return b.template create<ConstantIndexOp>(l, v);
  }
''',
}


def _rd(p):
    with open(os.path.join(INCD, p)) as f:
        return f.read()


def _must(t, old, new, what):
    if old not in t:
        raise BuildError("overlay: %s not found" % what)
    return t.replace(old, new, 1)


def overlay():
    out = {}
    p = "mlir/IR/OpDefinition.h"
    a = "  /// Create a deep copy of this operation."
    t = _must(_rd(p), a, _CREATE + a, p)
    out[p] = t.replace("#include <tuple>", "#include <tuple>", 1)

    p = "mlir/Dialect/Arith/IR/Arith.h"
    t = _rd(p)
    for k, v in _ARITH.items():
        m = re.search(re.escape(k) + r"[^{]*\{\s*public:\n", t)
        if not m:
            raise BuildError("overlay: %s" % k)
        t = t[:m.end()] + v + t[m.end():]
    out[p] = t

    p = "mlir/Transforms/GreedyPatternRewriteDriver.h"
    t = _rd(p)
    out[p] = _must(t, "class GreedyRewriteConfig {\npublic:\n",
                   '''class GreedyRewriteConfig {
public:
  GreedyRewriteConfig &setUseTopDownTraversal(bool v = true) {
    useTopDownTraversal = v;
    return *this;
  }
  GreedyRewriteConfig &setMaxNumRewrites(int64_t v) {
    maxNumRewrites = v;
    return *this;
  }
  GreedyRewriteConfig &setMaxIterations(int64_t v) {
    maxIterations = v;
    return *this;
  }
''', p)

    p = "mlir/IR/Types.h"
    a = "  bool isF32() const;"
    out[p] = _must(_rd(p), a, a + "\n  bool isFloat() const { return "
                   "isIntOrFloat() && !isIntOrIndex(); }", p)

    p = "mlir/Conversion/LLVMCommon/MemRefBuilder.h"
    a = "  static MemRefDescriptor undef("
    out[p] = _must(
        _rd(p), a, '''  static MemRefDescriptor poison(
      OpBuilder &b, Location l, Type t) {
    return undef(b, l, t);
  }
''' + a, p)
    for p, t in out.items():
        f = os.path.join(OVI, p)
        os.makedirs(os.path.dirname(f), exist_ok=True)
        vbuild.write_if_changed(f, t)
    # libonnx 1.14 has no names for the newest element types.
    p = "onnx/onnx-ml.pb.h"
    with open("/usr/include/" + p) as f:
        t = f.read()
    m = re.search(r"enum TensorProto_DataType : int \{\n", t)
    new = [("UINT4", 21), ("INT4", 22), ("FLOAT4E2M1", 23),
           ("FLOAT8E8M0", 24), ("UINT2", 25), ("INT2", 26)]
    new = [(n, v) for n, v in new if "TensorProto_DataType_%s " % n not in t]
    t = t[:m.end()] + "".join(
        "  TensorProto_DataType_%s = %d,\n" % x for x in new) + t[m.end():]
    m = re.search(r"  static constexpr DataType FLOAT =\n", t)
    if m is None:
        m = re.search(r"  static constexpr DataType FLOAT =", t)
    t = t[:m.start()] + "".join(
        "  static constexpr DataType %s = TensorProto_DataType_%s;\n" %
        (n, n) for n, _ in new) + t[m.start():]
    f = os.path.join(OVI, p)
    os.makedirs(os.path.dirname(f), exist_ok=True)
    vbuild.write_if_changed(f, t)
    # The CMake-generated list of accelerators (none).
    vbuild.write_if_changed(
        _mk(os.path.join(GEN, "src/Accelerators/Accelerators.inc")),
        '#define APPLY_TO_ACCELERATORS(MACRO, ...)\n\n'
        '#define APPLY_TO_NO_ACCELERATORS(MACRO) MACRO\n')


    vbuild.write_if_changed(_mk(os.path.join(GEN, "ExternalUtil.hpp")),
                            EXTERNAL_UTIL)
    vbuild.write_if_changed(_mk(os.path.join(GEN, "VCSVersion.inc")),
                            '#define ONNX_MLIR_REVISION "0"\n'
                            '#define ONNX_MLIR_REPOSITORY ""\n'
                            '#define LLVM_REVISION "0"\n'
                            '#define LLVM_REPOSITORY ""\n')


EXTERNAL_UTIL = """#ifndef ONNX_MLIR_EXTERNAL_UTIL_H
#define ONNX_MLIR_EXTERNAL_UTIL_H
#include <map>
#include <string>
namespace onnx_mlir {
static const std::string kExecPath = "/nonexistent/onnx-mlir";
static const std::string kInstPath = "/nonexistent";
static const std::string kOptPath = "/nonexistent/opt";
static const std::string kLlcPath = "/nonexistent/llc";
static const std::string kOnnxmlirPath = "/nonexistent/onnx-mlir";
static const std::string kCPath = "/nonexistent/cc";
static const std::string kCxxPath = "/nonexistent/c++";
static const std::string kLinkerPath = "/nonexistent/ld";
static const std::string kObjCopyPath = "/nonexistent/objcopy";
static const std::string kArPath = "/nonexistent/ar";
static const std::string kJarPath = "";
static const std::string kDefaultTriple = "x86_64-pc-linux-gnu";
static const std::string kLrodataScript = "";
static const std::map<std::string, std::string> toolPathMap = {
    {"instPath", kInstPath}, {"opt", kOptPath}, {"llc", kLlcPath},
    {"onnx-mlir", kOnnxmlirPath}, {"c", kCPath}, {"cxx", kCxxPath},
    {"linker", kLinkerPath}, {"objcopy", kObjCopyPath}, {"ar", kArPath},
    {"jar", kJarPath}, {"defaultTriple", kDefaultTriple},
    {"lrodataScript", kLrodataScript}};
} // namespace onnx_mlir
#endif
"""


def _mk(f):
    os.makedirs(os.path.dirname(f), exist_ok=True)
    return f


# --- tablegen -------------------------------------------------------------

def _ifc(n):
    return [("src/Interface/%s.td" % n, ["-gen-op-interface-defs"],
             "src/Interface/%s.cpp.inc" % n),
            ("src/Interface/%s.td" % n, ["-gen-op-interface-decls"],
             "src/Interface/%s.hpp.inc" % n)]


def _dialect(d, td, name, attrs):
    o = "src/Dialect/%s/%s" % (d, d)
    r = []
    for kind, suf in (("attrdef", "Attributes"), ("typedef", "Types")):
        for k, e in (("defs", "cpp"), ("decls", "hpp")):
            r.append((td, ["-gen-%s-%s" % (kind, k),
                           "-%ss-dialect=%s" % (kind, name)],
                      "%s%s.%s.inc" % (o, suf, e)))
    for k, e in (("defs", "cpp"), ("decls", "hpp")):
        r.append((td, ["-gen-dialect-" + k, "-dialect=" + name],
                  "%sDialect.%s.inc" % (o, e)))
        r.append((td, ["-gen-op-" + k], "%sOps.%s.inc" % (o, e)))
    return r


TG = sum([_ifc(n) for n in (
    "ShapeInferenceOpInterface", "ShapeHelperOpInterface",
    "ResultTypeInferenceOpInterface", "HasOnnxSubgraphOpInterface",
    "SpecializedKernelOpInterface")], [])
TG += _dialect("Krnl", "src/Dialect/Krnl/Krnl.td", "krnl", 1)
TG += _dialect("ONNX", "src/Dialect/ONNX/ONNX.td", "onnx", 1)
_OT = "src/Dialect/ONNX/Transforms/"
TG += [("src/Dialect/ONNX/ONNXOps/Canonicalize.td", ["-gen-rewriters"],
        "src/Dialect/ONNX/ONNXOps/ONNXCanonicalize.inc")]
TG += [(_OT + n + ".td", ["-gen-rewriters"], _OT + "ONNX" + n + ".inc")
       for n in ("Decompose", "ConstProp", "ConvOpt")]
TGX = [(_OT + "Passes.td", ["-gen-pass-decls", "-name=ONNXTransforms"],
        _OT + "Passes.h.inc"),
       ("src/Transform/PassesKrnl.td",
        ["-gen-pass-decls", "-name=TransformsKrnl"],
        "src/Transform/PassesKrnl.h.inc"),
       ("src/Transform/Passes.td", ["-gen-pass-decls", "-name=Transforms"],
        "src/Transform/Passes.h.inc"),
       ("src/Conversion/ONNXToLinalg/Passes.td",
        ["-gen-pass-decls", "-name=ONNXToLinalg"],
        "src/Conversion/ONNXToLinalg/Passes.h.inc")]


def tblgen():
    def one(t):
        td, args, o = t
        src = os.path.join(REPO, td)
        if not os.path.exists(src):
            raise BuildError("missing " + td)

        def do(tmp):
            dep = tmp + ".d"
            vbuild.run([LLVM + "/bin/mlir-tblgen"] + args + [
                "-I", os.path.dirname(src), "-I", REPO, "-I", INCD, src,
                "-o", tmp, "-d", dep])
            deps = vbuild.parse_depfile(dep)
            os.unlink(dep)
            # The depfile lists the included files only.
            return [src] + [os.path.normpath(os.path.join(os.getcwd(), d))
                            for d in deps]
        c = vbuild.cached(["tblgen2", src] + args, do)
        with open(c) as f:
            vbuild.write_if_changed(_mk(os.path.join(GEN, o)), f.read())
    with cf.ThreadPoolExecutor(vbuild.NPROC) as ex:
        list(ex.map(one, TG + TGX))


# --- sources --------------------------------------------------------------

DIRS = ["src/Builder", "src/Conversion/KrnlSeqToMemref",
        "src/Conversion/KrnlToAffine", "src/Conversion/KrnlToLLVM",
        "src/Conversion/ONNXConversionCommon", "src/Conversion/ONNXToKrnl",
        "src/Dialect", "src/Interface", "src/Transform"]
FILES = ["src/Accelerators/Accelerator.cpp",
         "src/Accelerators/InitAccelerators.cpp", "src/Support/Diagnostic.cpp",
         "src/Support/KrnlSupport.cpp", "src/Support/SmallFP.cpp",
         "src/Support/TypeUtilities.cpp", "src/Compiler/CompilerOptions.cpp",
         "src/Compiler/CompilerPasses.cpp",
         "src/Compiler/CompilerDialects.cpp",
         "src/Compiler/DisposableGarbageCollector.cpp",
         "src/Compiler/OptionUtils.cpp", "src/Version/Version.cpp",
         "src/Compiler/JsonConfigObject.cpp"]

RESPELL = {
    "src/Conversion/KrnlToLLVM/ConvertKrnlToLLVM.cpp": [
        (r"vector::VectorContractLowering\(\)",
         "vector::VectorTransformsOptions()"),
        (r"vector::VectorTransposeLowering\(\)",
         "vector::VectorTransformsOptions()"),
        (r"(remove(?:Arg|Result)Attr\(\s*\w+\s*,\s*)(\"[^\"]*\")",
         r"\1mlir::StringAttr::get(funcOp.getContext(), \2)")],
    "src/Conversion/KrnlToLLVM/KrnlInstrument.cpp": [
        (r",\s*/\*splitDebugFilename=\*/StringAttr\{\}", ""),
        (r"DICompileUnitAttr::get\(\s*ctx\s*,", "DICompileUnitAttr::get(")],
    "src/Transform/ProcessKrnlParallelClause.cpp": [
        (r"getNumThreadsVarsMutable", "getNumThreadsMutable")],
    "src/Conversion/KrnlToLLVM/KrnlRoundEven.cpp": [
        (r"/\*tail_call_kind=\*/[^,]*,", "")],
    "src/Compiler/CompilerPasses.cpp": [
        (r"\A", '#include "mlir/Dialect/Bufferization/Transforms/'
         'OneShotAnalysis.h"\n#include "mlir/Dialect/Bufferization/'
         'Transforms/Bufferize.h"\n'),
        (r"bufferization::OneShotBufferizePassOptions",
         "bufferization::OneShotBufferizationOptions"),
        (r"createConvertBufferizationToMemRefPass",
         "createBufferizationToMemRefPass"),
        (r"createSCFToControlFlowPass", "createConvertSCFToCFPass")],
}


def respelled(rel):
    src = os.path.join(REPO, rel)
    if rel not in RESPELL:
        return src
    with open(src) as f:
        t = f.read()
    for a, b in RESPELL[rel]:
        t = re.sub(a, b, t)
    f = _mk(os.path.join(SRC, rel))
    vbuild.write_if_changed(f, t)
    return f


def sources():
    out = []
    for d in DIRS:
        for dp, dn, fn in os.walk(os.path.join(REPO, d)):
            dn.sort()
            for f in sorted(fn):
                if f.endswith(".cpp"):
                    out.append(os.path.relpath(os.path.join(dp, f), REPO))
    out += FILES
    return out


DEFS = ["-DONNX_ML=1", "-DONNX_NAMESPACE=onnx", "-D__STDC_CONSTANT_MACROS",
        "-D__STDC_FORMAT_MACROS", "-D__STDC_LIMIT_MACROS",
        '-DLLVM_PACKAGE_VERSION="20.1.2"', '-DONNX_MLIR_VERSION="0.5.1"',
        '-DPRODUCT_ID="NOT_SPECIFIED"', "-DPRODUCT_VERSION_MAJOR=0",
        "-DPRODUCT_VERSION_MINOR=0", "-DPRODUCT_VERSION_PATCH=0"]
OPT = ["-O0", "-w", "-fPIC", "-std=c++17", "-fvisibility-inlines-hidden",
       "-ffunction-sections", "-fdata-sections"]
INCS = ["-I" + OVI, "-I" + INCD, "-I" + GEN, "-I" + REPO,
        "-I" + os.path.join(REPO, "include")]


def flags(extra=()):
    return OPT + DEFS + INCS + list(extra)


def pch():
    """Precompiled MLIR headers (none of /repo's)."""
    h = _mk(os.path.join(OV, "mlirpch.hpp"))
    vbuild.write_if_changed(h, "\n".join("#include %s" % x for x in PCH) +
                            "\n")

    def do(tmp):
        dep = tmp + ".d"
        vbuild.run([CXX] + flags() + ["-Xclang", "-fno-pch-timestamp", "-x",
                                      "c++-header", "-MD", "-MF", dep,
                                      "-MT", "x", h, "-o", tmp])
        deps = vbuild.parse_depfile(dep)
        os.unlink(dep)
        return [os.path.normpath(os.path.join(os.getcwd(), d)) for d in deps]
    return vbuild.cached([CXX, "pch2"] + flags() + [h], do)


PCH = ['"mlir/IR/Builders.h"', '"mlir/IR/BuiltinOps.h"',
       '"mlir/IR/BuiltinTypes.h"', '"mlir/IR/Dialect.h"',
       '"mlir/IR/OpDefinition.h"', '"mlir/IR/OpImplementation.h"',
       '"mlir/IR/PatternMatch.h"', '"mlir/IR/Matchers.h"',
       '"mlir/IR/IntegerSet.h"', '"mlir/IR/Verifier.h"',
       '"mlir/IR/DialectImplementation.h"', '"mlir/IR/TypeUtilities.h"',
       '"mlir/Pass/Pass.h"', '"mlir/Pass/PassManager.h"',
       '"mlir/Transforms/DialectConversion.h"',
       '"mlir/Transforms/GreedyPatternRewriteDriver.h"',
       '"mlir/Transforms/FoldUtils.h"',
       '"mlir/Interfaces/CallInterfaces.h"',
       '"mlir/Interfaces/LoopLikeInterface.h"',
       '"mlir/Interfaces/SideEffectInterfaces.h"',
       '"mlir/Dialect/Affine/IR/AffineOps.h"',
       '"mlir/Dialect/Affine/Analysis/Utils.h"',
       '"mlir/Dialect/Affine/LoopUtils.h"',
       '"mlir/Dialect/Arith/IR/Arith.h"',
       '"mlir/Dialect/Func/IR/FuncOps.h"',
       '"mlir/Dialect/Func/Transforms/FuncConversions.h"',
       '"mlir/Dialect/Linalg/IR/Linalg.h"',
       '"mlir/Dialect/LLVMIR/LLVMDialect.h"',
       '"mlir/Dialect/Math/IR/Math.h"',
       '"mlir/Dialect/MemRef/IR/MemRef.h"',
       '"mlir/Dialect/SCF/IR/SCF.h"',
       '"mlir/Dialect/Shape/IR/Shape.h"',
       '"mlir/Dialect/Vector/IR/VectorOps.h"',
       '"mlir/Conversion/LLVMCommon/TypeConverter.h"',
       '"mlir/Conversion/LLVMCommon/Pattern.h"',
       '"llvm/ADT/TypeSwitch.h"', '"llvm/Support/Debug.h"',
       '"llvm/Support/CommandLine.h"', '"llvm/IR/Module.h"',
       "<algorithm>", "<functional>", "<map>", "<numeric>", "<regex>",
       "<set>", "<string>", "<unordered_map>", "<vector>"]


def compile_all(rels=None, jobs=None):
    overlay()
    tblgen()
    p = pch()
    rels = rels or sources()
    fl = flags(["-include-pch", p])

    def one(rel):
        s = respelled(rel)
        f = list(fl)
        if s.startswith(SRC):
            f.append("-I" + os.path.dirname(os.path.join(REPO, rel)))
        return vbuild.obj(s, f, CXX)
    with cf.ThreadPoolExecutor(jobs or vbuild.NPROC) as ex:
        fs = [(r, ex.submit(one, r)) for r in rels]
        out, errs = [], []
        for r, f in fs:
            try:
                out.append(f.result())
            except BuildError as e:
                errs.append("%s: %s" % (r, e))
    if errs:
        raise BuildError("\n".join(errs))
    return out


def server(name="cc_server"):
    """The compile server of harness/cc_server.cpp."""
    import registry
    os_ = compile_all()
    h = os.path.join(VERIF, "harness", "cc_server.cpp")
    os_ = [vbuild.obj(h, flags(["-include-pch", pch()]), CXX)] + os_
    rt = registry.cruntime()
    os_ += vbuild.objs(
        [s for s in rt], lambda s: ["-O1", "-w", "-fPIC"] + (
            ["-std=c++17"] if s.endswith(".cpp") else []) + registry.INC,
        lambda s: "clang" if s.endswith(".c") else CXX)
    return vbuild.link(os_, [
        "-L" + LLVM + "/lib", "-Wl,-rpath," + LLVM + "/lib", "-lMLIR",
        "-lLLVM-20", "-lonnx", "-lonnx_proto", "-lprotobuf", "-lpthread",
        "-ldl", "-lm", "-rdynamic"], CXX, name)


if __name__ == "__main__":
    import sys
    import time
    t = time.time()
    try:
        compile_all(sys.argv[1:])
    except BuildError as e:
        print(str(e)[:20000])
    print("%.0f s" % (time.time() - t))
