"""The properties: source of properties.jsonl and of the check list in
MANIFEST.json (both written by bin/gen.py)."""
P = []
NOT_APPLICABLE = []     # (id, reason)


def prop(id, title, statement, over, text, why, files, mech, note, tech,
         state=None, observe=None):
    assert len(title) <= 80, (id, len(title))
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[
                 dict(name=n, where=w) for n, w in mech]))
    if state:
        d["anchors"]["state"] = [dict(name=a, meaning=b, where=c)
                                 for a, b, c in state]
    if observe:
        d["anchors"]["observe_at"] = observe
    P.append((d, note, tech))


RTI = "src/Runtime/OMTensor.inc"
prop("R01", "Tensor and tensor-list accessors reflect exactly what was set",
     "Through any sequence of create / set / get calls, an OMTensor reports "
     "the rank, shape, element strides, data type, number of elements, buffer "
     "size and data pointer last given to it (row-major strides by default, a "
     "rank-0 tensor having one element), and a tensor list returns the "
     "tensors it was built from in order. Python byte strides are converted "
     "to element strides, and element access by index through the C++ helpers "
     "reaches the element those strides denote.",
     ["inputs", "histories"],
     "All element types, ranks 0-6, shapes with empty and unit dimensions, "
     "all interleavings of setter and getter calls over several tensors and "
     "lists.",
     "OMTensorTest and TestStrides build a couple of fixed 2-D/4-D tensors "
     "and read them once.",
     [RTI, "src/Runtime/OMTensorList.inc", "src/Runtime/OMTensorHelper.cpp",
      "include/onnx-mlir/Runtime/OMTensor.h"],
     [("omTensorCreate*, computeStridesFromShape", RTI),
      ("omTensorSetStridesWithPyArrayStrides", RTI),
      ("omTensorGetElem, omTensorComputeElemOffset",
       "src/Runtime/OMTensorHelper.cpp")],
     "Histories of up to dozens of calls against a model, in the C and the "
     "C++ build of the runtime, under AddressSanitizer.",
     "stateful property-based testing against a reference model")
prop("R02", "Tensors and lists free exactly the memory they own, once",
     "Whatever the history of creation, data replacement, ownership transfer "
     "and destruction of tensors and tensor lists, every owned buffer is freed "
     "exactly once, when its owner goes, and no buffer the caller owns is "
     "ever freed or written. Destroying a list destroys its tensors; the "
     "shallow variant does not; a failed allocation is reported as NULL and "
     "leaks nothing.",
     ["histories", "fault_sequences"],
     "All interleavings of the create/replace/transfer/destroy calls, with "
     "an allocation failure at any point.",
     "Tests destroy what they made at the end and never observe frees or "
     "allocation failures.",
     [RTI, "src/Runtime/OMTensorList.inc"],
     [("_owning flag, omTensorDestroy, omTensorSetDataPtr", RTI),
      ("omTensorListDestroy, omTensorListDestroyShallow",
       "src/Runtime/OMTensorList.inc")],
     "All malloc/calloc/free of the library are intercepted and compared with "
     "the ownership model; faults are injected at generated calls.",
     "stateful property-based testing with injected allocation failures")
prop("R03", "Printed tensors show their metadata and every element in order",
     "The tensor print facility writes the message with each format "
     "specifier replaced by the tensor's data, type, rank, shape, or address "
     "information, elements in row-major order nested by dimension, with the "
     "values of each element type, and other text unchanged.",
     ["inputs"],
     "All element types and values, ranks, dense and strided tensors, and "
     "message strings.",
     "No test inspects printed tensors.",
     [RTI, "src/Runtime/OnnxDataType.c"],
     [("omTensorPrint, printData, printDataType", RTI)],
     "Output is captured byte for byte and compared with an independently "
     "written printer.",
     "property-based testing against a reference printer")
prop("R04", "Runtime sort orders each slice stably along the axis",
     "The runtime sort used by compiled models writes, for every slice along "
     "the sorted axis, the permutation of indices that orders the elements "
     "ascending or descending, equal elements keeping their order, and "
     "changes nothing outside the result; the portable quick sort orders any "
     "array with any comparator.",
     ["inputs"], "All element types, shapes, strides, value distributions.",
     "No test runs the runtime sort.",
     ["src/Runtime/OMSort.c"],
     [("omTensorSort, comparators per type", "src/Runtime/OMSort.c"),
      ("portable quick sort", "src/Runtime/OMSort.c")],
     "NaN-free values; axis restricted to the last, as in the kernel.",
     "property-based testing against a reference sort")
prop("R05", "TopK returns the K best indices, lower index first among equals",
     "For every slice along the axis, the runtime TopK yields the indices of "
     "the K largest (or smallest) elements; when sorted is requested they are "
     "in order of value, and among equal values the lower index comes first "
     "and is the one selected.",
     ["inputs"], "All element types, shapes, K, largest/smallest, "
     "sorted/unsorted, many ties.",
     "No test runs the runtime TopK.",
     ["src/Runtime/OMTopK.c"],
     [("omTensorTopK, heap comparators", "src/Runtime/OMTopK.c")],
     "NaN-free values.", "property-based testing against a reference sort")
prop("R06", "Unique yields the distinct slices and consistent index outputs",
     "The runtime Unique operation counts and returns the distinct elements "
     "or slices along an axis, in sorted order or order of first occurrence, "
     "with first-occurrence indices, inverse indices and counts as ONNX "
     "defines them, for any subset of the optional outputs.",
     ["inputs", "configurations"],
     "All element types, shapes, axis or flattened, sorted or not, optional "
     "outputs present or absent.",
     "No test runs the runtime Unique.",
     ["src/Runtime/OMUnique.c"],
     [("omTensorUnique, omTensorUniqueCount, produceY/IndicesY/InverseIndices",
       "src/Runtime/OMUnique.c")],
     "NaN-free values; outputs are compared with a definition written from "
     "the ONNX text.", "property-based testing against the ONNX definition")
prop("R07", "Resize runtime interpolates as ONNX specifies",
     "The runtime Resize computes linear and cubic interpolation with the "
     "requested coordinate transformation, by scales or by sizes, so that "
     "every output element agrees with the ONNX formula over the tensor's "
     "full rank, touching no memory outside input and output.",
     ["inputs", "configurations"],
     "Shapes of rank 1-4, scales, sizes, coordinate modes, interpolation "
     "modes, values.",
     "No test runs the runtime Resize.",
     ["src/Runtime/OMResize.c"],
     [("Resize_Scales, Resize_Size, interpolation kernels",
       "src/Runtime/OMResize.c")],
     "Tolerance relative to the magnitude of the input values.",
     "property-based testing against a double precision reference")
prop("R08", "Random generators: seeded, in range, right moments, right extent",
     "The random normal and uniform runtime functions fill exactly the "
     "requested number of elements; the same seed gives the same values and "
     "another seed others; uniform values lie in the requested range and both "
     "distributions have the requested moments.",
     ["inputs"], "Element types, sizes, seeds, means, scales, bounds.",
     "No test runs them.",
     ["src/Runtime/OMRandomNormal.c", "src/Runtime/OMRandomUniform.c"],
     [("get_random_normal_value_f32 / _f64", "src/Runtime/OMRandomNormal.c"),
      ("get_uniform_random_value_*", "src/Runtime/OMRandomUniform.c")],
     "Moments are checked on 4000 values with wide (8 sigma) margins.",
     "property-based testing: metamorphic and statistical invariants")
prop("R09", "Category lookup finds every key at its index, and only the keys",
     "The perfect hash the compiler builds for a dictionary of distinct "
     "integers or strings, used by the runtime lookup of compiled models, "
     "maps every key to its own index, and an absent key to a slot whose key "
     "differs, for every dictionary.",
     ["inputs"], "All dictionaries of 64-bit integers or strings.",
     "No stable test builds a hash table and looks keys up.",
     ["src/Conversion/ONNXToKrnl/PerfectHash.cpp",
      "src/Runtime/OMIndexLookup.c"],
     [("PerfectHash, hash_string/hash_int64",
       "src/Conversion/ONNXToKrnl/PerfectHash.cpp"),
      ("find_index_str, find_index_i64", "src/Runtime/OMIndexLookup.c")],
     "Both hash implementations are the real ones, linked together.",
     "property-based testing: round trip between compiler and runtime")
prop("R10", "External constants are loaded whole, once, or refused",
     "Loading the constants file of a model gives the exact bytes of that "
     "file found through the model's directory or OM_CONSTANT_PATH, reports a "
     "missing or short file as a failure, gives each constant the address at "
     "its offset, and after unloading a later load works afresh.",
     ["inputs", "histories", "fault_sequences"],
     "Files present, missing, truncated; paths with and without the "
     "environment variable; all load / address / unload histories.",
     "No test loads external constants.",
     ["src/Runtime/OMExternalConstant.c"],
     [("omLoadConstantData, omGetExternalConstantAddr, "
       "omUnloadConstantData", "src/Runtime/OMExternalConstant.c")],
     "Histories over four scratch files against a model.",
     "stateful property-based testing with file faults")
prop("R11", "Instrumentation reports every requested point exactly once",
     "For any sequence of instrumentation points and environment settings, "
     "the report holds one line per requested time or memory record, in "
     "order, with the op and node names given, before/after labels and "
     "elapsed / accumulated times consistent with each other, goes to the "
     "configured file, and disabling instrumentation silences it.",
     ["histories", "configurations"],
     "Histories of instrument calls, flags and environment variables.",
     "TestInstrumentation calls each entry once with one configuration.",
     ["src/Runtime/OMInstrument.c", "include/onnx-mlir/Runtime/OMInstrument.h"],
     [("OMInstrumentPointInit, OMInstrumentPoint, omInstrumentPrint",
       "src/Runtime/OMInstrument.c")],
     "Report files are parsed; timings are only checked for consistency.",
     "stateful property-based testing against a reference report")
prop("R12", "Small float conversions are exact, with round to nearest even",
     "float16 and bfloat16 values convert to float exactly, float converts to "
     "the nearest representable value with ties to even, overflow to infinity "
     "and NaN to NaN, in the runtime's conversions.",
     ["inputs"], "All 65536 encodings of both formats; all floats.",
     "TestSmallFP checks a few values.",
     ["src/Support/SmallFPConversion.c",
      "include/onnx-mlir/Runtime/../../../src/Support/SmallFPConversion.h"],
     [("om_f32_to_f16, om_f16_to_f32, om_f32_to_bf16, om_bf16_to_f32",
       "src/Support/SmallFPConversion.c")],
     "The 16-bit direction is enumerated; floats are drawn around every kind "
     "of rounding boundary.",
     "exhaustive plus generated inputs against exact reference arithmetic")
P[-1][0]["anchors"]["files"][1] = "src/Support/SmallFPConversion.h"
prop("S01", "ExecutionSession runs the chosen entry point and fails cleanly",
     "A session loads the given model library and runs its selected entry "
     "point on the caller's tensors, handing over outputs that outlive the "
     "session's other operations; every misuse (missing library or symbol, "
     "unknown entry point, failing or crashing run under the signal guard) "
     "is reported as an error and leaves other sessions, the "
     "process environment and its signal handlers as they were.",
     ["histories", "fault_sequences", "schedules"],
     "All histories of constructing, running (all run interfaces), querying "
     "and destroying several sessions, with faults in the model and "
     "concurrent runs.",
     "No stable test opens a model library.",
     ["src/Runtime/ExecutionSession.cpp",
      "include/onnx-mlir/Runtime/../../../src/Runtime/ExecutionSession.hpp"],
     [("ExecutionSession::loadModel, run, runDebug, setEntryPoint",
       "src/Runtime/ExecutionSession.cpp")],
     "Runs over fake model libraries built by the check that count calls, "
     "return errors and raise signals on request.",
     "stateful property-based testing with injected faults")
P[-1][0]["anchors"]["files"][1] = "src/Runtime/ExecutionSession.hpp"
prop("S02", "Python sessions: arrays in and out keep type, shape and values",
     "Running a model from Python passes the model exactly the logical "
     "contents of each numpy array (any supported type, layout or "
     "read-onlyness) and returns arrays that own or correctly share their "
     "data, with right type, shape and values; errors become Python "
     "exceptions; no run leaks memory or disturbs inputs or earlier outputs.",
     ["histories", "inputs", "fault_sequences"],
     "Array types, shapes, layouts; histories of runs, failures, entry "
     "points; repeated runs.",
     "No stable test runs a session from Python.",
     ["src/Runtime/python/PyExecutionSession.cpp",
      "src/Runtime/python/PyRuntime.py"],
     [("_runImplementation, string and shared output handling",
       "src/Runtime/python/PyExecutionSession.cpp"),
      ("OMExecutionSession.run / run_debug",
       "src/Runtime/python/PyRuntime.py")],
     "The extension is compiled against a numpy-2 view of the installed "
     "pybind11, as the installed one predates numpy 2.",
     "stateful property-based testing over an echo model")
prop("S03", "Generated model inputs honour the signature and overrides",
     "Input data generated from a model signature has, for every input, the "
     "signature's type and shape with dynamic dimensions taken from the shape "
     "information, and values following the requested per-type ranges, "
     "default ranges, seed or sequences; a malformed signature or "
     "specification is refused without undefined behaviour. Runtime element "
     "type numbers, sizes and names agree with the ONNX standard.",
     ["inputs", "configurations"],
     "Signatures over all types and shapes; shape and value specifications; "
     "seeds; malformed variants.",
     "No stable test generates data from a signature.",
     ["src/Runtime/OMTensorListHelper.cpp", "src/Runtime/OMTensorHelper.cpp",
      "include/onnx-mlir/Runtime/OnnxDataTypeMetaData.inc"],
     [("omTensorListCreateFromInputSignature family",
       "src/Runtime/OMTensorListHelper.cpp"),
      ("omTensorCreateWithRandomData, SozData, ...",
       "src/Runtime/OMTensorHelper.cpp")],
     "Lists are compared element by element with the documented meaning.",
     "property-based testing against a reference interpretation")

prop("J01", "The Java API moves tensors to and from a model unchanged",
     "Whatever a Java program builds with OMTensor (from arrays or buffers of "
     "any byte order, every element type, shapes of any rank and with sizes "
     "of 0 and 1) and OMTensorList reads back as it was written, reaches the "
     "model of OMModel.mainGraph with the same type, shape and elements, and "
     "the model's results reach Java the same way, as do signatures and entry "
     "points; misuse and failures of the model are reported as Java "
     "exceptions; no memory that a call, even a failing one, took is lost or "
     "freed twice and later calls are not affected.",
     ["inputs", "histories", "fault_sequences"],
     "Histories of tensors, setters, getters, lists and calls with generated "
     "arrays, misuse and model failures.",
     "No stable test builds the Java API.",
     ["src/Runtime/jni/jniwrapper.c", "src/Runtime/jni/jnilog.c",
      "src/Runtime/jni/src/com/ibm/onnxmlir/OMTensor.java",
      "src/Runtime/jni/src/com/ibm/onnxmlir/OMModel.java",
      "src/Runtime/jni/src/com/ibm/onnxmlir/OMTensorList.java"],
     [("omtl_java_to_native, omtl_native_to_java",
       "src/Runtime/jni/jniwrapper.c"),
      ("OMTensor", "src/Runtime/jni/src/com/ibm/onnxmlir/OMTensor.java")],
     "The model is the check's own; it counts the memory that it and the "
     "wrapper hold. Strides other than those of rows are not generated: "
     "models assume dense tensors.",
     "stateful property-based testing against a reference model")
prop("T01", "The session cache keeps what it was given, within its capacity",
     "A session cache returns for a key the session that was last put for it "
     "and nothing else, holds at most its capacity, evicts the entry that was "
     "used least recently, and after a restart finds again on disk what was "
     "persisted; entries that are damaged, incomplete or were being written "
     "when the process died are never returned and do not keep others from "
     "being found.",
     ["histories", "fault_sequences", "configurations"],
     "Histories of puts, gets, misses, restarts, damaged files and crashes at "
     "every file operation, over capacities and directories.",
     "The stable tests do not touch the cache.",
     ["src/Runtime/python/torch_onnxmlir/src/torch_onnxmlir/sessioncache.py"],
     [("SessionCache", "src/Runtime/python/torch_onnxmlir/src/torch_onnxmlir/"
       "sessioncache.py")],
     "Compiled models and sessions are stand-ins.",
     "stateful property-based testing with injected faults")
prop("T02", "Running and verifying a model says pass only if results agree",
     "RunONNXModel.py and om_pyrt's comparison accept the outputs of a model "
     "exactly if they have the number, shapes and (where compared) types of "
     "the reference and every element is within the tolerance, exactly equal "
     "where no tolerance applies, with infinities and NaN only matching "
     "themselves; otherwise they end with an error status. The model that "
     "runs is the one compiled from the given file with the given flags, or "
     "the saved or cached one asked for; it gets the given inputs (generated, "
     "from references, arrays or by name) in the order of its signature, runs "
     "as often as asked, and what is saved reads back the same; option files "
     "only fill in what the command line leaves open; unusable requests are "
     "refused before anything runs.",
     ["inputs", "configurations", "histories"],
     "Arrays at the edges of the tolerance, special values, all types; "
     "histories of runs with generated options, config files, saved models, "
     "changing models and reference directories.",
     "The stable tests never run these scripts.",
     ["utils/RunONNXModel.py",
      "src/Runtime/python/om_pyrt/src/om_pyrt/utils.py"],
     [("verify, run_performance_test, process_inputs, handle_args",
       "utils/RunONNXModel.py"),
      ("compare_result, read_npy_files",
       "src/Runtime/python/om_pyrt/src/om_pyrt/utils.py")],
     "The compiler and the session are stand-ins whose results are known; "
     "differences within rounding of the limit are not judged.",
     "stateful property-based testing against a reference model")
prop("T03", "Compile wrappers run the requested compiler on the right files",
     "onnxmlirdocker's and onnxmlirrun's InferenceSession and "
     "docker/onnx-mlir.py start exactly one compilation, by the requested or "
     "default compiler, engine and image, with exactly the given options, "
     "tag, model and output whatever characters their names contain, in a "
     "container with every directory it needs at the path it is told; they "
     "load the library of that compilation, with its constants, and give the "
     "model its inputs in the order of its signature, also when passed by "
     "name; when the compiler, the engine or a request fails, that is "
     "reported and no library, not even one that was there before, is used; "
     "nothing is left behind in the temporary directory.",
     ["inputs", "configurations", "histories", "fault_sequences"],
     "Histories of sessions and inferences over model names, directories, "
     "options, outputs, engines, images and failures; command lines for the "
     "container script.",
     "The stable tests never run these scripts; they need an engine.",
     ["src/Runtime/python/onnxmlirdocker.py", "docker/onnx-mlir.py",
      "utils/onnxmlirrun.py"],
     [("InferenceSession", "src/Runtime/python/onnxmlirdocker.py"),
      ("mount_path, main", "docker/onnx-mlir.py"),
      ("InferenceSession", "utils/onnxmlirrun.py")],
     "The compiler is a script that records its arguments; engines are "
     "modules or a script that follow what docker does with mounts.",
     "stateful property-based testing with injected faults")
prop("D01", "Flag parsing and predicted names agree with the compiler's reading",
     "Splitting a flag string yields exactly the arguments it was written "
     "for, whatever quoting or escaping was used, and from them (with or "
     "without a model path and an output path) the predicted input model, "
     "output file (name given with -o or derived from the model, directory "
     "from the output path when -o names none, suffix of the emission "
     "target, absolute) and model tag are those the compiler uses; flags "
     "that merely look like -o, --tag or an emission target do not count.",
     ["inputs", "configurations"],
     "All argument lists and quotings; all combinations of model location, "
     "-o forms, output path, emission target, tag form and other flags.",
     "No stable test calls the driver's parsing or prediction.",
     ["src/Compiler/CommandUtils.cpp", "src/Compiler/OMCompile.cpp"],
     [("parseFlags, getOutputFilename, getInputFilename, applyOutputPath, "
       "getModelTag", "src/Compiler/CommandUtils.cpp"),
      ("OMCompile::predict*", "src/Compiler/OMCompile.cpp")],
     "Compared with a reference written from the option documentation; names "
     "that are themselves directories are excluded.",
     "property-based testing (round trip and reference model)")
prop("D02", "A command runs with exactly its arguments and reports its fate",
     "Executing a command starts the named program with exactly the appended "
     "non-empty arguments in order, in the requested directory, with its "
     "output in the requested log, waits for it even when interrupted by "
     "signals, and returns its exit code (distinct codes for a program that "
     "is missing or not executable) or throws when it was killed or the "
     "directory is missing; the caller's directory, open files, children and "
     "pending output are left as they were.",
     ["histories", "fault_sequences"],
     "Histories of append / reset / print / redirect / exec over one command, "
     "with exit codes, signals, missing programs and directories, and "
     "signals delivered during the wait.",
     "No stable test executes a command.",
     ["src/Compiler/Command.cpp"],
     [("Command::exec", "src/Compiler/Command.cpp"),
      ("Command::print, appendStr, appendList, resetArgs",
       "src/Compiler/Command.cpp")],
     "The program run reports what it was given.",
     "stateful property-based testing with injected faults")
prop("D03", "A compile session reports its output or fails, local or container",
     "A compilation, local or in a container, gives the compiler exactly the "
     "requested flags and model, and ends either in success, with the "
     "absolute name of an existing output (equal to the predicted one), its "
     "constants file if there is one and its tag, or in an exception that "
     "describes the compiler's error code, after which no result is "
     "available; sessions (also concurrent ones) do not affect each other. A "
     "container session uses the requested or first working engine, pulls a "
     "missing image only when asked to, mounts the model and output "
     "directories (under their host names inside a container) and runs in "
     "the caller's directory.",
     ["histories", "configurations", "fault_sequences", "schedules"],
     "Histories of compilations over several sessions with generated flags, "
     "paths, compiler failures, missing files; concurrent sessions; engine "
     "and image availability.",
     "No stable test compiles through OMCompile; none has an engine.",
     ["src/Compiler/OMCompile.cpp", "src/Compiler/CommandUtils.cpp",
      "src/Compiler/Command.cpp"],
     [("OMCompile::compile", "src/Compiler/OMCompile.cpp"),
      ("ContainerSupport, createContainerCompileCommand",
       "src/Compiler/OMCompile.cpp")],
     "The compiler and the container engine are stand-ins built by the check "
     "that follow the real command lines.",
     "stateful property-based testing with injected faults")
prop("E01", "Computing on constant tensors gives what the operation defines",
     "Every operation of the constant algebra (element-wise functions with "
     "broadcasting, where, clip, transpose, reshape, expand, split, concat, "
     "slice, pad, gather, scatterND, reductions, matmul, range, nonZero, "
     "equality) applied to constants of any element type, shape (including "
     "scalars, ones and empty ones) and representation (dense, splat, "
     "buffer-backed, transposed, broadcast or lazily transformed views) "
     "returns a constant of the right type and shape whose elements, however "
     "they are read, are those the operation defines; its operands keep "
     "their values.",
     ["inputs", "histories"],
     "Histories of operations whose operands are results of earlier ones; 17 "
     "element types; shapes of rank 0-6; indices and axes incl. negative "
     "ones; sizes above the thresholds of the parallel paths.",
     "No stable test reads a constant attribute; strides, laziness and "
     "parallel chunks only show in combinations.",
     ["src/Dialect/ONNX/ElementsAttr/ElementsAttrBuilder.cpp",
      "src/Dialect/ONNX/ElementsAttr/ElementsAttrBuilder.hpp",
      "src/Dialect/ONNX/ElementsAttr/DisposableElementsAttr.cpp",
      "src/Dialect/ONNX/ElementsAttr/ElementsAttrHelper.cpp",
      "src/Dialect/ONNX/ElementsAttr/Strides.cpp"],
     [("ElementsAttrBuilder",
       "src/Dialect/ONNX/ElementsAttr/ElementsAttrBuilder.hpp"),
      ("DisposableElementsAttr readers",
       "src/Dialect/ONNX/ElementsAttr/DisposableElementsAttr.cpp"),
      ("reshapeStrides, StridesRange",
       "src/Dialect/ONNX/ElementsAttr/Strides.cpp")],
     "The reference wraps integers to their element type and keeps floats in "
     "double until they are read, as documented.",
     "stateful property-based testing against a reference model")
prop("E02", "Casts of constant tensors round, saturate and keep precision",
     "Casting a constant between any two element types (with or without "
     "rounding or saturation, on any representation, in chains of casts and "
     "other operations) gives for every element the documented value: floats "
     "to integers round to nearest even (or truncate) and saturate, NaN gives "
     "zero; bool is false exactly for zero; integers wrap around to "
     "narrower integers and round to floats when they are read; "
     "saturating float casts clip to the finite range and keep NaN.",
     ["inputs", "histories"],
     "All pairs of 17 element types; values at the rounding and range "
     "boundaries of each.",
     "No stable test casts a constant.",
     ["src/Dialect/ONNX/ElementsAttr/ElementsAttrBuilder.cpp",
      "src/Dialect/ONNX/ElementsAttr/WideNum.hpp",
      "src/Dialect/ONNX/ElementsAttr/WideNum.cpp",
      "src/Dialect/ONNX/ElementsAttr/BType.cpp"],
     [("castElementType, castToIntElementType, castToFPElementType",
       "src/Dialect/ONNX/ElementsAttr/ElementsAttrBuilder.cpp"),
      ("WideNum::toAPFloat, toAPInt",
       "src/Dialect/ONNX/ElementsAttr/WideNum.cpp")],
     "Infinities under saturation are clipped, as the comment in the code "
     "says.",
     "stateful property-based testing against a reference model")
prop("E03", "The pool frees unreachable constants and never a reachable one",
     "Whatever attributes were created (also from several threads), shared, "
     "attached to, replaced in or removed from the operations of a module, a "
     "garbage collection leaves every constant the module holds readable and "
     "unchanged and releases the data of all others; scrubbing turns every "
     "one into an ordinary dense constant of the same value and releases all "
     "data; a closed pool makes only ordinary constants; a printed constant "
     "parses back to the same elements and damaged text is refused.",
     ["histories", "schedules"],
     "Histories of attribute creation, sharing views, module edits with "
     "nested regions, collections, scrubs, prints and parses.",
     "No stable test has a pool.",
     ["src/Dialect/ONNX/ElementsAttr/DisposablePool.cpp",
      "src/Dialect/ONNX/ElementsAttr/DisposableElementsAttr.cpp"],
     [("DisposablePool::garbageCollectUnreachable, scrub, close",
       "src/Dialect/ONNX/ElementsAttr/DisposablePool.cpp"),
      ("DisposableElementsAttr::parse, printWithoutType",
       "src/Dialect/ONNX/ElementsAttr/DisposableElementsAttr.cpp")],
     "Released buffers are observed through their destructor; a read of freed "
     "data is an ASan error. The dialect that holds the pool is the check's "
     "own.",
     "stateful property-based testing (model of reachability)")


# Compiled models ------------------------------------------------------------
CC_TESTS = ("The stable tests never compile a model; the project's own backend "
            "tests run one input per operator.")
CC_NOTE = ("The compiler's sources are built against the installed LLVM 20 "
           "(a few spellings adapted at build time) and run through its own "
           "pass pipeline to native code; the oracle is the ONNX reference "
           "evaluator. Unsupported combinations listed in DESIGN.md are not "
           "generated.")
CC_TECH = "differential property-based testing against the ONNX reference"
prop("C01", "Compiled elementwise operators compute what ONNX defines",
     "A model with a unary, binary, variadic, comparison, logical, bitwise, "
     "cast, clip or where operator compiles and gives the "
     "output shape, element type and values ONNX defines for every operand "
     "type it supports, every broadcast of shapes, constants as well as "
     "inputs, static as well as dynamic sizes, and whatever the optimization "
     "level, SIMD, parallel, constant propagation and pass options are.",
     ["inputs", "configurations"],
     "Generated attributes, opsets, element types, shapes (with ones and "
     "sizes around the vector length), values (special ones too), constant "
     "or input operands, static or dynamic declarations and options.",
     CC_TESTS,
     ["src/Conversion/ONNXToKrnl/Math/Elementwise.cpp",
      "src/Dialect/ONNX/Transforms/ConstProp.cpp"],
     [("lowering, SIMD code and fusion",
       "src/Conversion/ONNXToKrnl/Math/Elementwise.cpp"),
      ("constant folding", "src/Dialect/ONNX/Transforms/ConstProp.cpp"),
      ("math library lowering", "src/Dialect/Mlir/DialectBuilder.cpp")],
     CC_NOTE, CC_TECH)
prop("C02", "Compiled data movement operators put every element in its place",
     "A model that slices, pads, concatenates, splits, transposes, reshapes, "
     "expands, tiles, gathers, scatters, selects, sorts or generates tensors "
     "(also Range, OneHot, NonZero, Unique, TopK, ArgMax, ArgMin, CumSum, "
     "Resize, Trilu, EyeLike, DepthToSpace, ...) compiles and gives ONNX's result for every "
     "legal attribute, negative axis, index or step, whether shape operands "
     "and indices are constants or inputs, sizes static or dynamic, and "
     "whatever the options are.",
     ["inputs", "configurations"],
     "Generated attributes, opsets, element types, shapes, indices in and at "
     "the edges of their range, constant or input operands, static or dynamic "
     "sizes and options.",
     CC_TESTS,
     ["src/Conversion/ONNXToKrnl/Tensor", "src/Dialect/ONNX/ONNXOps/Tensor",
      "src/Dialect/ONNX/Transforms/ConstProp.cpp"],
     [("lowering of tensor operators", "src/Conversion/ONNXToKrnl/Tensor"),
      ("shape computation", "src/Dialect/ONNX/ONNXOps/Tensor"),
      ("constant folding", "src/Dialect/ONNX/Transforms/ConstProp.cpp")],
     CC_NOTE, CC_TECH)
prop("C03", "Compiled reductions, products, convolutions, norms are correct",
     "A model with a reduction, MatMul, Gemm, Einsum, quantized product, "
     "convolution, pooling, softmax, normalization or quantization operator "
     "compiles and gives ONNX's shape, type and values up to "
     "the rounding of its element type, for every legal attribute, padding "
     "mode, group, stride, dilation, axis, transposition and broadcast, "
     "constant and input operands, static and dynamic sizes, and whatever "
     "the options are.",
     ["inputs", "configurations"],
     "Generated attributes, opsets, element types, shapes, operands, sizes "
     "and options.",
     CC_TESTS,
     ["src/Conversion/ONNXToKrnl/Math", "src/Conversion/ONNXToKrnl/NN",
      "src/Conversion/ONNXToKrnl/Quantization", "src/Dialect/ONNX/ONNXOps"],
     [("MatMul, Gemm, Reduction, Softmax lowering",
       "src/Conversion/ONNXToKrnl/Math"),
      ("Conv, Pooling, Normalization lowering",
       "src/Conversion/ONNXToKrnl/NN"),
      ("decompositions", "src/Dialect/ONNX/Transforms/Decompose.cpp")],
     CC_NOTE, CC_TECH)
prop("C04", "Rewriting, fusing and folding whole graphs keeps their meaning",
     "A graph of any of the operators of C01 to C03, using each other's "
     "results several times, mixing constants and inputs and returning "
     "intermediate or shared values in any order, compiles and computes what "
     "its operators compute one after another; canonicalization, constant "
     "propagation, decomposition, recomposition, operator fusion, buffer "
     "placement and every documented option that only concerns speed leave "
     "the results unchanged.",
     ["inputs", "configurations", "histories"],
     "Generated graphs of two to eight operators with shared operands and "
     "outputs, and generated instances and near misses of the operator "
     "sequences the compiler recognises, under generated options.",
     CC_TESTS,
     ["src/Dialect/ONNX/Transforms", "src/Dialect/ONNX/ONNXOps",
      "src/Compiler/CompilerPasses.cpp", "src/Conversion", "src/Transform"],
     [("canonicalization patterns",
       "src/Dialect/ONNX/ONNXOps/Canonicalize.cpp"),
      ("decomposition and recomposition", "src/Dialect/ONNX/Transforms"),
      ("operator fusion", "src/Conversion/ONNXToKrnl/Math/Elementwise.cpp"),
      ("entry point, output ownership",
       "src/Conversion/KrnlToLLVM/ConvertKrnlToLLVM.cpp")],
     CC_NOTE, CC_TECH)
prop("C05", "Inferred shapes and signatures never contradict the real tensors",
     "For every value of a model, the type shape inference finds has the "
     "element type, rank and known sizes of the tensor ONNX defines, and no "
     "size that was declared is lost; sizes given by --shapeInformation or "
     "made dynamic in the importer are honoured; the input and output "
     "signatures of a compiled model name, in order, the declared names, "
     "element types and sizes of its tensors.",
     ["inputs", "configurations"],
     "Generated graphs over all supported operators with static, symbolic, "
     "unknown, forced dynamic or customized input sizes.",
     CC_TESTS + " Shape inference lit tests pin examples.",
     ["src/Dialect/ONNX/ONNXOps", "src/Dialect/ONNX/Transforms/"
      "ShapeInference.cpp", "src/Builder/FrontendDialectTransformer.cpp",
      "src/Conversion/KrnlToLLVM/KrnlEntryPoint.cpp"],
     [("ShapeHelper::computeShape", "src/Dialect/ONNX/ONNXOps"),
      ("shape customization",
       "src/Builder/FrontendDialectTransformer.cpp"),
      ("signatures", "src/Conversion/KrnlToLLVM/KrnlEntryPoint.cpp")],
     CC_NOTE, CC_TECH)
prop("C06", "Compiled RNN, GRU and LSTM compute what ONNX defines",
     "A model with an RNN, GRU or LSTM (with constant W, R, B and P, as "
     "docs/SupportedONNXOps-cpu.md asks for) compiles and gives ONNX's "
     "outputs for every direction, layout, activation function and its alpha "
     "and beta, optional bias, initial state, sequence lengths, peephole, "
     "clip and linear_before_reset, for static and dynamic sizes and every "
     "option.",
     ["inputs", "configurations"],
     "Generated attributes, sizes, optional operands and options.",
     CC_TESTS,
     ["src/Conversion/ONNXToKrnl/RNN", "src/Dialect/ONNX/ONNXOps/RNN"],
     [("lowering", "src/Conversion/ONNXToKrnl/RNN"),
      ("shape computation", "src/Dialect/ONNX/ONNXOps/RNN")],
     CC_NOTE, CC_TECH)
NN = "src/Accelerators/NNPA/"
prop("N01", "Conversion to and from dlfloat16 is exact rounding",
     "fp32_to_dlf16 gives for every finite float the nearest dlfloat16 (a "
     "half rounds away from zero), saturates what is too large, keeps the "
     "sign, gives a zero below the smallest code and a NaN for a NaN; "
     "dlf16_to_fp32 gives the value of every code, so that decoding and "
     "encoding again is the identity. Both convert exactly the number of "
     "elements asked for, from any start, leaving the rest of the memory "
     "alone.",
     ["inputs"],
     "All floats, all codes, all lengths.",
     "The NNPA tests need the accelerator's library and are not built here; "
     "they compare a few tensors.",
     [NN + "Support/Stickify/Convert.cpp"],
     [("fp32_to_dlf16, dlf16_to_fp32", NN + "Support/Stickify/Convert.cpp")],
     "The decoder is checked on all codes; the encoder on sampled floats, "
     "most near codes and the middles between them. ASan and UBSan.",
     "property-based testing against a reference model, round trip")
prop("N02", "Constants stickified by the compiler have the accelerator's layout",
     "For every layout, shape and element type, the descriptors the NNPA "
     "compiler generates for a constant have the dims, format and type zDNN "
     "defines, the buffer size is the number of 4 KB pages they need, and "
     "stickify puts the (rounded or quantized) value of every element where "
     "the accelerator reads it - sticks of 64 cells (128 for int8 weights), "
     "32 to a page, gates of LSTM and GRU concatenated and padded - and "
     "writes nothing outside of the buffer; unsupported combinations are "
     "refused with a status.",
     ["inputs"],
     "All layouts, concatenations and quantized types, shapes around "
     "multiples of 32, 64 and 128.",
     "Tests of stickification are lit tests of a few constants that need "
     "the accelerator's library.",
     [NN + "Support/Stickify/Stickify.cpp",
      NN + "Support/Stickify/Stickify.hpp"],
     [("set_info_*, generate_transformed_desc*, stickify",
       NN + "Support/Stickify/Stickify.cpp")],
     "Reference layout written from zDNN's definition of 4DFEATURE, "
     "4DKERNEL and 4DWEIGHTS. NaN in the constants is left out (refused with "
     "an error by the tree).",
     "property-based testing against a reference model")
prop("N03", "Operations split for the accelerator compute what one call does",
     "For every shape, layout, limit of the accelerator and number of "
     "threads, the zdnnx elementwise, softmax and matmul operations give the "
     "result of one zDNN call without limits: they call zDNN only with "
     "tensors within its limits whose descriptors agree with the buffers, "
     "cover every element exactly once, leave their inputs (data and "
     "descriptors) and the memory around the output unchanged and free what "
     "they allocate. A tile is a copy of, or a view on, exactly its part of "
     "the full tensor, and an error of the accelerator is returned.",
     ["inputs", "configurations"],
     "Generated limits of dims and tensor size, 1-4 threads, all operations, "
     "layouts and transposes, shapes around the sizes of pages and tiles.",
     "The accelerator is not available to tests here; its limits (32768 and "
     "more) are far above what tests use, so splitting is not exercised.",
     [NN + "Runtime/zdnnx/zdnnx.c", NN + "Runtime/zdnnx/seq_ops.c",
      NN + "Runtime/zdnnx/omp_ops.c", NN + "Runtime/zdnnx/zdnnx_ops.c",
      NN + "Runtime/zdnnx/zdnnx_ops_private.c", NN + "Runtime/zdnnx/utils.c"],
     [("zdnnx_prepare_split_info, zdnnx_set_tile, zdnnx_copy_data_to_tile, "
       "zdnnx_copy_data_to_full", NN + "Runtime/zdnnx/zdnnx.c"),
      ("zdnnx_seq_*", NN + "Runtime/zdnnx/seq_ops.c"),
      ("zdnnx_omp_*", NN + "Runtime/zdnnx/omp_ops.c")],
     "A stand-in for zDNN computes on 16-bit codes with functions that tell "
     "operations, operands and elements apart. Left out: quantized matmul, "
     "errors of the accelerator under several threads, int8 tensors.",
     "differential property-based testing against an unsplit execution, "
     "with fault injection")
