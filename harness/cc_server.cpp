// Compile server: reads requests (options, ONNX model, input tensors) on
// stdin, and for each forks a child that imports and compiles the model with
// onnx-mlir's own passes, JITs the result, runs it, and answers.
#include <cerrno>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <vector>

#include "mlir/Conversion/Passes.h"
#include "mlir/Dialect/LLVMIR/LLVMDialect.h"
#include "mlir/IR/AsmState.h"
#include "mlir/IR/MLIRContext.h"
#include "mlir/IR/Verifier.h"
#include "mlir/Parser/Parser.h"
#include "mlir/Pass/PassManager.h"
#include "mlir/Target/LLVMIR/Dialect/All.h"
#include "mlir/Target/LLVMIR/Export.h"
#include "mlir/Transforms/Passes.h"
#include "llvm/ExecutionEngine/Orc/ExecutionUtils.h"
#include "llvm/ExecutionEngine/Orc/JITTargetMachineBuilder.h"
#include "llvm/ExecutionEngine/Orc/LLJIT.h"
#include "llvm/IR/Module.h"
#include "llvm/Support/CommandLine.h"
#include "llvm/Support/InitLLVM.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/TargetSelect.h"
#include "llvm/TargetParser/Host.h"

#include "OnnxMlirRuntime.h"
#include "src/Builder/FrontendDialectTransformer.hpp"
#include "src/Compiler/CompilerDialects.hpp"
#include "src/Compiler/CompilerOptions.hpp"
#include "src/Compiler/CompilerPasses.hpp"
#include "src/Dialect/ONNX/ONNXDialect.hpp"
#include "src/Dialect/ONNX/ONNXOps.hpp"
#include "src/Pass/Passes.hpp"

using namespace mlir;
namespace om = onnx_mlir;

// The Linalg path is not part of this build.
namespace onnx_mlir {
std::unique_ptr<mlir::Pass> createConvertONNXToLinalg() { abort(); }
std::unique_ptr<mlir::Pass> createConvertONNXToLinalg(
    const std::string &, bool) {
  abort();
}
} // namespace onnx_mlir

static bool readAll(int fd, void *p, size_t n) {
  char *c = (char *)p;
  while (n) {
    ssize_t r = read(fd, c, n);
    if (r < 0 && errno == EINTR)
      continue;
    if (r <= 0)
      return false;
    c += r;
    n -= r;
  }
  return true;
}
static void writeAll(int fd, const void *p, size_t n) {
  const char *c = (const char *)p;
  while (n) {
    ssize_t r = write(fd, c, n);
    if (r < 0 && errno == EINTR)
      continue;
    if (r <= 0)
      _exit(9);
    c += r;
    n -= r;
  }
}

static int gOut = -1; // the child's answer pipe
static const char *gStage = "start";
static char *gShared; // stage name visible to the parent

static void stage(const char *s) { strncpy(gShared, s, 60); }

[[noreturn]] static void answer(
    llvm::json::Object o, const std::vector<std::string> &bufs = {}) {
  std::string s;
  llvm::raw_string_ostream os(s);
  os << llvm::json::Value(std::move(o));
  uint32_t n = s.size();
  writeAll(gOut, &n, 4);
  writeAll(gOut, s.data(), n);
  for (auto &b : bufs)
    writeAll(gOut, b.data(), b.size());
  _exit(0);
}

[[noreturn]] static void fail(const char *what, const std::string &msg) {
  llvm::json::Object o;
  o["status"] = what;
  o["message"] = llvm::json::fixUTF8(msg);
  answer(std::move(o));
}

static std::string typeStr(Type t) {
  std::string s;
  llvm::raw_string_ostream os(s);
  t.print(os);
  return s;
}

struct Req {
  llvm::json::Object h;
  std::string model, data;
};

static llvm::json::Array funcTypes(ModuleOp m, bool results) {
  llvm::json::Array a;
  for (auto f : m.getOps<func::FuncOp>()) {
    if (f.getName() != "main_graph")
      continue;
    auto ft = f.getFunctionType();
    for (Type t : results ? ft.getResults() : ft.getInputs())
      a.push_back(typeStr(t));
  }
  return a;
}

static llvm::json::Object opCounts(ModuleOp m) {
  std::map<std::string, int64_t> c;
  m.walk([&](Operation *o) { c[o->getName().getStringRef().str()]++; });
  llvm::json::Object r;
  for (auto &k : c)
    r[k.first] = k.second;
  return r;
}

static void child(MLIRContext &ctx, Req &rq) {
  llvm::json::Object res;
  std::string mode = rq.h.getString("mode").value_or("run").str();
  if (auto *e = rq.h.getObject("env"))
    for (auto &k : *e)
      setenv(k.first.str().c_str(), k.second.getAsString()->str().c_str(), 1);
  // Options, exactly as the driver parses them.
  std::vector<std::string> args = {"onnx-mlir"};
  if (auto *a = rq.h.getArray("args"))
    for (auto &v : *a)
      args.push_back(v.getAsString()->str());
  args.push_back("m.onnx");
  std::vector<const char *> argv;
  for (auto &s : args)
    argv.push_back(s.c_str());
  stage("options");
  if (!llvm::cl::ParseCommandLineOptions(
          argv.size(), argv.data(), "", &llvm::errs()))
    fail("badopts", "");
  om::initCompilerConfig();

  OwningOpRef<ModuleOp> module;
  std::string err;
  ctx.getDiagEngine().registerHandler([](Diagnostic &d) {
    llvm::errs() << d << "\n";
    return success();
  });
  if (mode == "mlir") {
    stage("parse");
    module = parseSourceString<ModuleOp>(rq.model, &ctx);
    if (!module)
      fail("parse", "");
  } else {
    stage("import");
    om::ImportOptions io;
    io.useOnnxModelTypes = om::useOnnxModelTypes;
    io.invokeOnnxVersionConverter = om::invokeOnnxVersionConverter;
    io.shapeInformation = om::shapeInformation;
    io.allowSorting = om::allowSorting;
    io.dimParams = om::dimParams;
    io.functionsToDecompose = om::functionsToDecompose;
    int rc = om::ImportFrontendModelArray(
        rq.model.data(), rq.model.size(), ctx, module, &err, io);
    if (rc || !module)
      fail("import", err);
    if (failed(verify(*module)))
      fail("import", "module does not verify");
  }
  // As compileModule sets it up.
  Operation &mop = *module->getOperation();
  std::string triple = llvm::sys::getDefaultTargetTriple();
  auto jtmb = llvm::cantFail(llvm::orc::JITTargetMachineBuilder::detectHost());
  jtmb.setCodeGenOptLevel(llvm::CodeGenOptLevel::None);
  auto dl = llvm::cantFail(jtmb.getDefaultDataLayoutForTarget());
  mop.setAttr(LLVM::LLVMDialect::getTargetTripleAttrName(),
      StringAttr::get(&ctx, triple));
  mop.setAttr(LLVM::LLVMDialect::getDataLayoutAttrName(),
      StringAttr::get(&ctx, dl.getStringRepresentation()));
  mop.setAttr("onnx-mlir.symbol-postfix", StringAttr::get(&ctx, ""));
  om::configurePasses();

  stage("onnx");
  om::emissionTarget = om::EmitLLVMIR;
  {
    // First the ONNX-level passes on their own, then the rest: the same
    // sequence addPasses sets up, cut where the types can be looked at.
    PassManager pm(module.get()->getName(), OpPassManager::Nesting::Implicit);
    om::addONNXToMLIRPasses(pm, true);
    if (failed(pm.run(*module)))
      fail("onnx", "");
  }
  res["in_types"] = funcTypes(*module, false);
  res["out_types"] = funcTypes(*module, true);
  res["ops"] = opCounts(*module);
  if (rq.h.getBoolean("text").value_or(false)) {
    std::string s;
    llvm::raw_string_ostream os(s);
    OpPrintingFlags fl;
    fl.elideLargeElementsAttrs(64);
    module->print(os, fl);
    res["text"] = llvm::json::fixUTF8(s);
  }
  if (mode == "onnx") {
    res["status"] = "ok";
    answer(std::move(res));
  }
  {
    stage("krnl");
    PassManager pm(module.get()->getName(), OpPassManager::Nesting::Implicit);
    om::addONNXToKrnlPasses(pm, om::OptimizationLevel, true, "");
    om::addKrnlToAffinePasses(pm);
    if (failed(pm.run(*module)))
      fail("krnl", "");
  }
  {
    stage("llvm");
    PassManager pm(module.get()->getName(), OpPassManager::Nesting::Implicit);
    om::addKrnlToLLVMPasses(pm, "m", true);
    if (failed(pm.run(*module)))
      fail("llvm", "");
  }
  stage("translate");
  auto lctx = std::make_unique<llvm::LLVMContext>();
  auto lm = translateModuleToLLVMIR(*module, *lctx);
  if (!lm)
    fail("translate", "");
  stage("jit");
  auto jit = llvm::orc::LLJITBuilder()
                 .setJITTargetMachineBuilder(std::move(jtmb))
                 .create();
  if (!jit)
    fail("jit", llvm::toString(jit.takeError()));
  auto &J = **jit;
  J.getMainJITDylib().addGenerator(
      llvm::cantFail(llvm::orc::DynamicLibrarySearchGenerator::
              GetForCurrentProcess(dl.getGlobalPrefix())));
  if (auto e = J.addIRModule(
          llvm::orc::ThreadSafeModule(std::move(lm), std::move(lctx))))
    fail("jit", llvm::toString(std::move(e)));
  if (auto e = J.initialize(J.getMainJITDylib()))
    fail("jit", llvm::toString(std::move(e)));
  auto sym = J.lookup("run_main_graph");
  if (!sym)
    fail("jit", llvm::toString(sym.takeError()));
  auto run = sym->toPtr<OMTensorList *(*)(OMTensorList *)>();
  if (auto s = J.lookup("omInputSignature"))
    res["in_sig"] = std::string(s->toPtr<const char *(*)(const char *)>()(
        "run_main_graph"));
  else
    llvm::consumeError(s.takeError());
  if (auto s = J.lookup("omOutputSignature"))
    res["out_sig"] = std::string(s->toPtr<const char *(*)(const char *)>()(
        "run_main_graph"));
  else
    llvm::consumeError(s.takeError());

  stage("run");
  // One or more input sets, run one after the other by the same model.
  std::vector<std::string> bufs;
  llvm::json::Array runs;
  size_t off = 0;
  auto *sets = rq.h.getArray("sets");
  for (auto &set : *sets) {
    std::vector<OMTensor *> in;
    std::vector<std::string> copies;
    for (auto &v : *set.getAsArray()) {
      auto *o = v.getAsObject();
      std::vector<int64_t> shape;
      for (auto &d : *o->getArray("shape"))
        shape.push_back(*d.getAsInteger());
      size_t nb = *o->getInteger("nbytes");
      void *p = nullptr;
      // Sized exactly, 64-byte aligned as the runtime does it.
      if (posix_memalign(&p, 64, nb ? nb : 1))
        abort();
      memcpy(p, rq.data.data() + off, nb);
      copies.emplace_back(rq.data.data() + off, nb);
      off += nb;
      in.push_back(omTensorCreateWithOwnership(p, shape.data(), shape.size(),
          (OM_DATA_TYPE)*o->getInteger("type"), 1));
    }
    OMTensor **arr = (OMTensor **)malloc((in.size() + 1) * sizeof(OMTensor *));
    std::copy(in.begin(), in.end(), arr);
    OMTensorList *il = omTensorListCreate(arr, in.size());
    errno = 0;
    OMTensorList *ol = run(il);
    llvm::json::Object ro;
    if (!ol) {
      ro["null"] = true;
      ro["errno"] = errno;
      runs.push_back(std::move(ro));
      continue;
    }
    llvm::json::Array outs;
    for (int64_t i = 0; i < omTensorListGetSize(ol); i++) {
      OMTensor *t = omTensorListGetOmtByIndex(ol, i);
      llvm::json::Object oo;
      oo["type"] = (int64_t)omTensorGetDataType(t);
      llvm::json::Array sh, st;
      int64_t n = 1;
      for (int k = 0; k < omTensorGetRank(t); k++) {
        sh.push_back(omTensorGetShape(t)[k]);
        st.push_back(omTensorGetStrides(t)[k]);
        n *= omTensorGetShape(t)[k];
      }
      oo["shape"] = std::move(sh);
      oo["strides"] = std::move(st);
      int64_t es = omTensorGetDataType(t) == ONNX_TYPE_STRING
                       ? 0
                       : omTensorGetBufferSize(t) / (n ? n : 1);
      std::string b;
      if (omTensorGetDataType(t) == ONNX_TYPE_STRING) {
        char **p = (char **)omTensorGetDataPtr(t);
        for (int64_t k = 0; k < n; k++)
          b += std::string(p[k]) + std::string(1, '\0');
      } else {
        b.assign((char *)omTensorGetDataPtr(t), n ? n * es : 0);
      }
      oo["nbytes"] = (int64_t)b.size();
      bufs.push_back(b);
      outs.push_back(std::move(oo));
    }
    ro["outs"] = std::move(outs);
    // The inputs are the caller's: a run leaves them as they were.
    bool same = true;
    for (size_t i = 0; i < in.size(); i++)
      same &= !memcmp(
          omTensorGetDataPtr(in[i]), copies[i].data(), copies[i].size());
    ro["inputs_kept"] = same;
    omTensorListDestroy(ol);
    omTensorListDestroy(il);
    runs.push_back(std::move(ro));
  }
  res["runs"] = std::move(runs);
  res["status"] = "ok";
  answer(std::move(res), bufs);
}

int main(int argc, char **argv) {
  llvm::InitializeNativeTarget();
  llvm::InitializeNativeTargetAsmPrinter();
  llvm::InitializeNativeTargetAsmParser();
  registerPassManagerCLOptions();
  registerAsmPrinterCLOptions();
  registerMLIRContextCLOptions();
  om::removeUnrelatedOptions(
      {&om::OnnxMlirCommonOptions, &om::OnnxMlirOptions});

  DialectRegistry reg = om::registerDialects({});
  registerAllToLLVMIRTranslations(reg);
  MLIRContext ctx(reg, MLIRContext::Threading::DISABLED);
  ctx.loadAllAvailableDialects();
  ctx.printOpOnDiagnostic(false);

  gShared = (char *)mmap(0, 4096, PROT_READ | PROT_WRITE,
      MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  int ofd = dup(1);
  dup2(2, 1); // whatever prints to stdout does not reach the protocol
  for (;;) {
    uint32_t n[3];
    if (!readAll(0, n, sizeof n))
      return 0;
    Req rq;
    std::string hs(n[0], 0);
    rq.model.resize(n[1]);
    rq.data.resize(n[2]);
    if (!readAll(0, hs.data(), n[0]) || !readAll(0, rq.model.data(), n[1]) ||
        !readAll(0, rq.data.data(), n[2]))
      return 0;
    rq.h = *llvm::cantFail(llvm::json::parse(hs)).getAsObject();
    int limit = rq.h.getInteger("limit").value_or(60);
    int pfd[2];
    if (pipe(pfd))
      return 3;
    int ef = memfd_create("err", 0);
    stage("fork");
    pid_t pid = fork();
    if (pid == 0) {
      close(pfd[0]);
      gOut = pfd[1];
      dup2(ef, 2);
      dup2(ef, 1);
      struct rlimit rl = {0, 0};
      setrlimit(RLIMIT_CORE, &rl);
      rl.rlim_cur = rl.rlim_max = 6ull << 30;
      setrlimit(RLIMIT_AS, &rl);
      signal(SIGALRM, SIG_DFL);
      alarm(limit);
      child(ctx, rq);
      _exit(8);
    }
    close(pfd[1]);
    std::string ans;
    char buf[65536];
    for (;;) {
      ssize_t r = read(pfd[0], buf, sizeof buf);
      if (r < 0 && errno == EINTR)
        continue;
      if (r <= 0)
        break;
      ans.append(buf, r);
    }
    close(pfd[0]);
    int st = 0;
    waitpid(pid, &st, 0);
    std::string es;
    off_t el = lseek(ef, 0, SEEK_END);
    if (el > 0) {
      off_t from = el > 8000 ? el - 8000 : 0;
      es.resize(el - from);
      ssize_t r = pread(ef, es.data(), es.size(), from);
      es.resize(r > 0 ? r : 0);
    }
    close(ef);
    if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
      llvm::json::Object o;
      o["status"] = "crash";
      o["stage"] = std::string(gShared);
      o["signal"] = WIFSIGNALED(st) ? WTERMSIG(st) : -WEXITSTATUS(st);
      std::string s;
      llvm::raw_string_ostream os(s);
      os << llvm::json::Value(std::move(o));
      uint32_t k = s.size();
      ans.assign((char *)&k, 4);
      ans += s;
    }
    uint32_t total[2] = {(uint32_t)ans.size(), (uint32_t)es.size()};
    writeAll(ofd, total, 8);
    writeAll(ofd, ans.data(), ans.size());
    writeAll(ofd, es.data(), es.size());
  }
}
