#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the source of truth for its text)."""
import json,os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

R="src/Runtime/"
p("C01","A tensor describes exactly the data, shape and type it was given",
  "A tensor created from a buffer, shape, rank and element type reports exactly these, with row-major strides (the last is 1 and every other one is the product of the later dimensions), and its element count and buffer size are the product of its dimensions and that times the element size. Each setter changes the attribute it names (all of it, for every dimension) and nothing else, and every getter and setter tolerates a null tensor. The same holds for tensor lists: size, array and element access report what the list was created with, in order, and an out-of-range element is null.",
  ["inputs","histories"],"every rank, shape, element type, buffer, and sequence of setters and getters",
  "The tensor unit test builds a handful of tensors of one or two shapes; the guarantee ranges over every rank, shape, type and setter order, and an off-by-one in a stride or a byte size shows only for particular ranks or types.",
  [R+"OMTensor.inc",R+"OMTensor.c",R+"OMTensor.cpp",R+"OMTensorList.inc","include/onnx-mlir/Runtime/OMTensor.h"],
  [("constructors fill shape and strides from the innermost dimension outwards",R+"OMTensor.inc:omTensorCreate, omTensorCreateUntyped, omTensorCreateWithOwnership, omTensorCreateEmpty"),
   ("element size table by ONNX type",R+"OMTensor.inc:getDataTypeSize / OM_DATA_TYPE_SIZE"),
   ("list constructor copies the array of tensor pointers",R+"OMTensorList.inc:omTensorListCreate, omTensorListGetOmtByIndex")],
  [("OMTensor","allocated/aligned data pointer, shape and stride arrays, rank, type, ownership flag",R+"OMTensorInternal.h / OMTensor.inc struct OMTensor")],
  ["the public C runtime API"])
p("C02","Tensor and list memory is released exactly once, by its owner only",
  "Destroying a tensor or a tensor list releases every allocation it owns exactly once, releases a data buffer or element only if ownership was given to it, and never touches memory it does not own. A creation that runs out of memory at any allocation returns null and leaves no allocation behind, nor frees the caller's buffer. A change of data buffer replaces the old buffer, releasing it exactly when the tensor owned it.",
  ["histories","fault_sequences"],"every history of creation, ownership change, buffer replacement and destruction, and every allocation in it that may fail",
  "Tests never make an allocation fail and do not run with a leak or double-free detector; ownership errors are silent in an ordinary run.",
  [R+"OMTensor.inc",R+"OMTensorList.inc"],
  [("ownership flag consulted by destroy and buffer replacement",R+"OMTensor.inc:omTensorDestroy, omTensorSetDataPtr, omTensorSetOwning"),
   ("list destroy walks elements then frees array and list",R+"OMTensorList.inc:omTensorListDestroy, omTensorListDestroyShallow")],
  [("_owning","whether the tensor must release its data buffer","OMTensor.inc")])
p("C03","Tensor element addressing and comparison follow shape and strides",
  "The offset computed for a multi-index is the dot product of the index with the strides, dense strides computed from a shape are row-major, and the index enumeration derived from a shape contains every multi-index exactly once in row-major order. Two tensors of one element type, dense in row-major order, compare as close exactly when their shapes agree and every pair of corresponding elements a, b has |a-b| within the absolute tolerance plus the relative tolerance times |b|. Printing a tensor of rank at most 6 shows every element exactly once, in row-major order of its indices, in the format of its type.",
  ["inputs"],"every shape, stride vector, index, element type, element values and tolerances",
  "The existing tests compare a few tensors for equality; whether a mismatch in one arbitrary element, dimension or type is always noticed quantifies over all of them.",
  [R+"OMTensor.inc",R+"OMTensorHelper.cpp",R+"OMTensorHelper.hpp"],
  [("strides and offsets",R+"OMTensor.inc / OMTensorHelper.cpp:computeStridesFromShape, omTensorComputeElemOffset, omTensorComputeIndexSet"),
   ("element-wise tolerance test",R+"OMTensorHelper.cpp:omTensorAreTwoOmtsClose"),
   ("printing by rank",R+"OMTensor.inc:printData")])
p("C04","Runtime sort yields the stable sorted order of every slice",
  "Sorting along the last axis (the one axis supported, of stride 1, of a tensor of rank at most 6) rearranges, for every slice along that axis, the slice's index vector, which starts out as the positions 0 to n-1, into the permutation of those positions along which the data are monotone in the requested direction and equal elements keep their original order. This holds for every element type supported and for all data including duplicates and extreme values. The input data are not modified and nothing outside the slices' index vectors is written.",
  ["inputs"],"every shape of rank 1 to 6, direction, element type and data content (integers of all widths, floats other than NaN)",
  "No test in the suite calls the sort; only compiled models reach it, with a few small inputs.",
  [R+"OMSort.c"],
  [("typed comparison with tie-break by index",R+"OMSort.c:compareFunction declarations"),
   ("quick sort with explicit stack",R+"OMSort.c:quick_sort_custom"),
   ("axis walk for ranks up to six",R+"OMSort.c:omTensorSort")],
  [("quick-sort stack","pending sub-ranges, bounded by log2 of the size",R+"OMSort.c")])
p("C05","Runtime TopK returns the first k entries of the stable sorted order",
  "For every slice along the last axis (the one axis supported, of stride 1, rank at most 6; the slice's index vector starts out as the positions 0 to n-1), the first k entries of the index vector afterwards are exactly the first k indices of the stable sorted order of that slice in the requested direction: extreme elements first, and among equal elements the lower index first. When the result is not requested sorted, they are still the same set of indices. The rest of the vector is scratch space but stays a permutation; the input is unmodified and nothing outside the slices' index vectors is written.",
  ["inputs"],"every shape of rank 1 to 6, k from 0 to the axis length, direction, sortedness, element type and data content (no NaN)",
  "No test calls the function directly; ties and the switch between heap selection and full sort depend on the relation of k to the slice length and on duplicate positions.",
  [R+"OMTopK.c",R+"OMSort.c"],
  [("heap selection of k candidates then sort",R+"OMTopK.c:heap_sift_down, make_heap, omTensorTopK"),
   ("fallback to full sort when k is near the slice length",R+"OMTopK.c")])
p("C06","Runtime Unique returns the distinct slices with correct index maps",
  "Given a tensor and optionally an axis, the count reported and the values produced are the distinct elements (or slices along the axis), in ascending order (slices compared row-major, element by element) when sorting is requested and in first-occurrence order otherwise. Zeros of either sign are the same value; the data holds no NaN. The first-occurrence indices point at the first equal input slice, the inverse indices rebuild the input from the output, and the counts add up to the number of input slices. Optional outputs that are not requested (no tensor, or an empty one) are not written, and do not change the others.",
  ["inputs"],"every shape, axis or none, sorted flag, element type, data, and combination of requested outputs",
  "No test calls the function directly; duplicates, axis layout and the output combination all interact.",
  [R+"OMUnique.c"],
  [("slice comparison by element type",R+"OMUnique.c:isLessNum, isLessSlice"),
   ("insertion into the table of unique slices",R+"OMUnique.c:sliceTableRegister"),
   ("output production",R+"OMUnique.c:produceY, omTensorUnique, omTensorUniqueCount")])
p("C07","Index lookup returns the position of a present key, within the tables",
  "Looking up a string or integer key in a perfect-hash dictionary returns the index stored for that key's hash slot, computed as a pure function of the key bytes (integers by their decimal text) and the table, so that every key the table was built for maps to its own index. Building the table ends for every dictionary of distinct keys. Table accesses stay inside the two tables for every key, including keys not in the dictionary, empty strings, bytes above 127 and the extreme integers. The lookup changes no memory.",
  ["inputs"],"every key string and 64-bit integer, every dictionary size and table content",
  "No test links the lookup; it is reached only through compiled models with a few category strings.",
  [R+"OMIndexLookup.c","src/Conversion/ONNXToKrnl/PerfectHash.hpp"],
  [("FNV-style hash, two-level table",R+"OMIndexLookup.c:hash_string, hash_int64, find_index_str, find_index_i64")])
p("C08","External constants are loaded whole, once, or not at all",
  "Loading the constant file of a model leaves the pointer addressing the first bytes of the file, as many as asked for, or reports failure and leaves it unset with nothing leaked: a file that is too short is refused, open file descriptors are closed on every path, buffers are released, and a second load does not redo the first. A host byte order different from the file's is refused. The path is the directory given by the environment joined to the file name, or the file name alone. The address computed for a constant is the base plus its offset, computed once. Unloading releases the data and unsets the pointer.",
  ["inputs","fault_sequences"],"every path, file content, size and byte order, every history of loads and unloads, and every system call that may fail or return short",
  "No test loads an external constant file; failures of open, map and read are never provoked.",
  [R+"OMExternalConstant.c"],
  [("path building, open, byte-order check, clean up",R+"OMExternalConstant.c:omLoadConstantData, checkEndianness"),
   ("mapping or reading the file",R+"OMExternalConstant.c:mmapAndReadFile, mallocAndReadFile"),
   ("offset addressing and release",R+"OMExternalConstant.c:omGetExternalConstantAddr, omUnloadConstantData")])
p("C09","Instrumentation records carry the op, node and phase they were called with",
  "Each instrumentation call of the current run yields one record of each kind its tag requests (time, memory), in call order within the kind, that names exactly the operation, node (cut to the lengths packed into the tag) and phase of the call and its own measurement; none is lost, duplicated or altered by buffering (starting a run drops what a previous run did not print). The packing of a tag is exactly inverted by its unpacking for all name lengths it can hold. Disabling instrumentation through the environment suppresses the records.",
  ["inputs","histories"],"every tag, name, sequence of calls and environment setting, and any number of records relative to the buffer size",
  "The instrumentation test emits a few records and checks that lines exist; the buffer boundary, the tag fields and name lengths are not explored.",
  [R+"OMInstrument.c","include/onnx-mlir/Compiler/OMCompilerRuntimeTypes.h"],
  [("tag bit fields","include/onnx-mlir/Compiler/OMCompilerRuntimeTypes.h:INSTRUMENT_* macros"),
   ("record buffer and flush",R+"OMInstrument.c:OMInstrumentPoint, flushRecordBuffer")],
  [("record buffer","pending records not yet written",R+"OMInstrument.c")])
p("C10","Small-float conversions are exact widening and nearest-even narrowing",
  "Every half, bfloat16, 8-bit float and DLFloat16 value widens to the float it denotes, and every float (or double, for half) narrows to the nearest representable small value, ties to even (DLFloat16: ties away from zero), with the format's overflow, infinity, NaN, zero-sign and subnormal rules. Narrowing a widened value gives the same bits back (NaN stays NaN). Single and array conversions of DLFloat16 agree.",
  ["inputs"],"all 2^16 and 2^8 small values and all 2^32 floats, for each format",
  "The unit test samples a few dozen values; rounding defects live at ties, subnormals and overflow edges scattered over 2^32 inputs.",
  ["src/Support/SmallFPConversion.c","src/Support/SmallFP.hpp","src/Support/SmallFP.cpp"],
  [("bit manipulation conversions","src/Support/SmallFPConversion.c")])
p("C11","Runtime Resize interpolates exactly as its mode defines",
  "Resize_Scales and Resize_Size write every element of the output with the ONNX interpolation of the float input at that position: position (x + 1/2) / scale - 1/2 in every dimension (half_pixel), and per dimension the weighted sum of the neighbouring elements, repeated past the edges, with the weights of the mode: nearest (at a tie the smaller index, round_prefer_floor), linear, or cubic convolution with coefficient -3/4. Resize_Size uses scale = output size / input size; with Resize_Scales the output has floor(scale * input size) elements per dimension. This holds for every rank (up to floating-point rounding). Only elements of the input are read, nothing but the output's elements is changed, and no memory is kept.",
  ["inputs"],"every rank, input shape, positive scales or sizes, and the three modes",
  "No test calls the runtime resize directly, and a test can only sample shapes and scales.",
  [R+"OMResize.c"],
  [("weights, neighbours, recursion over the dimensions, enumeration of the output positions",R+"OMResize.c")])
p("C12","Runtime random generators fill exactly the output, within range",
  "Uniform generators write exactly the requested number of elements, each inside the requested range (up to rounding of its upper end) and a function of the seed's draws alone; normal generators do likewise from the requested mean and scale. A given seed makes the values reproducible, and different calls with the same seed agree. Nothing outside the output is written.",
  ["inputs"],"every size, range, mean, scale, seed and element type",
  "No test calls the generators; range ends and odd sizes show only for particular draws.",
  [R+"OMRandomUniform.c",R+"OMRandomNormal.c"],
  [("draw and scale loops",R+"OMRandomUniform.c, "+R+"OMRandomNormal.c")])
p("C13","Strided views address exactly the elements their shape denotes",
  "Default, splat, reshaped, expanded and transposed strides address, for every multi-index, exactly the element that the same operation on the underlying dense data would, and contiguity is reported exactly when the strides are the default ones for the elements addressed. Walking a shape visits every multi-index once in row-major order, with the position under each stride vector equal to the dot product of index and strides. Copying a strided view into a dense buffer yields the elements in row-major order.",
  ["inputs"],"every rank, shape (including size-0 and size-1 dimensions), stride vector, permutation and reshape target",
  "The strides unit test checks a few fixed shapes; reshape of a strided view depends on how dimensions merge and split, which is a combinatorial space.",
  ["src/Dialect/ONNX/ElementsAttr/Strides.cpp","src/Dialect/ONNX/ElementsAttr/Strides.hpp","src/Dialect/ONNX/ElementsAttr/StridesRange.hpp"],
  [("stride algebra","src/Dialect/ONNX/ElementsAttr/Strides.cpp"),
   ("multi-stride iterator","src/Dialect/ONNX/ElementsAttr/StridesRange.hpp:operator++")])
p("C14","Every element type is stored and widened with its own width and value",
  "Widening an element of any supported type and narrowing it back gives the same value, the widened kind is the one its type prescribes (signed, unsigned or floating), and comparisons and arithmetic conversions between types follow value. The byte width and type tag of each element type agree across the element-type tables, and reading or writing a widened number of any byte width touches only that element.",
  ["inputs"],"every element type and bit pattern",
  "Tests exercise a few types with small values; truncation and sign-extension errors need particular types and values.",
  ["src/Dialect/ONNX/ElementsAttr/BType.cpp","src/Dialect/ONNX/ElementsAttr/BType.hpp","src/Dialect/ONNX/ElementsAttr/WideNum.cpp","src/Dialect/ONNX/ElementsAttr/WideNum.hpp"],
  [("type dispatch and widening","src/Dialect/ONNX/ElementsAttr/WideNum.cpp:WideNum widen/narrow/toAPFloat")])
p("C15","Folding a constant gives the value its defining operation would",
  "Element-wise transforms, casts, transposes, reshapes, broadcasts, splits, concatenations, slices, gathers, scatters and reductions of constant tensors yield, at every index, the value the operation defines over the source constants. Sharing a buffer, choosing a lazy view or a splat representation never changes the values observed.",
  ["inputs","programs"],"every constant, operation parameter and chain of such operations",
  "Reached only by whole-compiler tests that cannot run here; a chain of lazy views is a space no fixed list of models covers.",
  ["src/Dialect/ONNX/ElementsAttr/ElementsAttrBuilder.cpp","src/Dialect/ONNX/ElementsAttr/DisposableElementsAttr.cpp"],
  [("lazy strided views with element transformers","src/Dialect/ONNX/ElementsAttr/ElementsAttrBuilder.cpp")])
p("C16","Model inputs are built as signature, shape and value options say",
  "For a model signature and optional shape, value and bound options, the inputs generated have exactly the signature's types and shapes with unknown dimensions taken from the shape option (an entry applies to the dimensions both have), and values within the bounds given by the most specific of per-input, per-type and built-in settings, where these bounds are values of the element type and in order. A malformed or contradictory option, an unknown type, bounds out of order or an unresolved dimension is refused with no input list and nothing leaked. The run-length pattern of leading ones then zeros is produced per row as asked.",
  ["inputs"],"every signature and option string, element type, shape and bound",
  "No test covers these parsers; malformed and mixed specifications are an unbounded space.",
  [R+"OMTensorListHelper.cpp",R+"OMTensorHelper.cpp"],
  [("parsers for shape, value and bound options",R+"OMTensorListHelper.cpp"),
   ("typed data fill",R+"OMTensorHelper.cpp:omTensorCreateWithRandomData, omTensorCreateSozData")])
p("C17","Compile flags are split and output names derived as a shell user expects",
  "Splitting a flag string yields the arguments a user wrote: white space separates, single or double quotes group, and a backslash keeps the next character. The name of the compiled output follows from an explicit output option when given and otherwise from the input model's name with its extension removed, with the extension of the requested output kind.",
  ["inputs"],"every flag string, model path and output kind",
  "No unit test covers the parser; quoting and path shapes are an unbounded space.",
  ["src/Compiler/CommandUtils.cpp","src/Compiler/OMCompile.cpp"],
  [("flag tokenizer and output naming","src/Compiler/CommandUtils.cpp:parseFlags, getOutputBasenameFromFlags, getOutputFilename")])
p("C18","A helper command runs exactly as built and its failure is reported",
  "A command built from a program and appended arguments runs that program with exactly those arguments in order, skipping empty ones, in the requested directory, and the caller's working directory is restored. A non-zero exit, a missing program or a start failure is reported to the caller and never taken for success.",
  ["inputs","fault_sequences"],"every argument list, directory and outcome of the child process",
  "No test runs a failing command through it.",
  ["src/Compiler/Command.cpp"],
  [("argument list and execution","src/Compiler/Command.cpp")])
p("C19","An execution session loads one model, runs its entry points, cleans up",
  "A session opened on a model library resolves the entry points of that model, runs the selected one on the caller's inputs and returns its outputs; a failed load, unknown entry point or crashing model is reported as an error without ending the process, and signal handling, environment and loaded library are restored when a call ends, whatever its outcome.",
  ["histories","fault_sequences"],"every sequence of load, entry-point selection, run and failure",
  "Needs a compiled model library, which the tests do not build here.",
  [R+"ExecutionSession.cpp",R+"PyExecutionSessionBase.cpp"],
  [("dynamic loading, symbol resolution, signal guard",R+"ExecutionSession.cpp")])
p("C20","Per-operation option patterns select exactly the operations they name",
  "An option pattern of comma-separated names with wildcards enables exactly the operations whose name matches one of its parts (all, none, exact names, or wildcards standing for any characters), a cached answer never differs from a fresh one, and node patterns are applied independently of operation patterns.",
  ["inputs","histories"],"every pattern string, operation and node name, and order of queries",
  "No test covers the pattern option; the answer depends on the whole pattern language and on the cache.",
  ["src/Compiler/OptionUtils.cpp","src/Compiler/OptionUtils.hpp"],
  [("pattern translation and cached match","src/Compiler/OptionUtils.cpp:EnableByRegexOption")])
p("C21","Compilation preserves the meaning of the model",
  "The library compiled from a model computes, for every input, the outputs that the ONNX operators of the model define, whatever optimisation level and target options are chosen.",
  ["programs","inputs","configurations"],"every valid ONNX model, input and compiler configuration",
  "Backend tests run a fixed list of models and inputs.",
  ["src/Conversion/ONNXToKrnl","src/Dialect/ONNX/ONNXOps","src/Builder"],
  [("lowering passes","src/Conversion")])
p("C22","Inferred shapes are those the operator produces at run time",
  "For every operator, the statically inferred shape and type agree with the run-time result in every dimension that is not left unknown.",
  ["programs","inputs"],"every operator, attribute setting and operand shape",
  "Lit tests pin specific graphs.",
  ["src/Dialect/ONNX/ONNXOps"],[("shape helpers","src/Dialect/ONNX/ONNXOps/ShapeHelper.cpp")])
p("C23","Disposed constants are unreachable and live constants keep their data",
  "Collecting unused constants during compilation frees only constants that no operation still refers to, and everything still reachable keeps its contents, whatever the interleaving of collection and constant creation.",
  ["schedules","histories"],"every interleaving of passes creating and releasing constants",
  "Depends on multi-threaded pass execution.",
  ["src/Dialect/ONNX/ElementsAttr/DisposablePool.cpp"],[("reference marking and sweep","src/Dialect/ONNX/ElementsAttr/DisposablePool.cpp")])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
open(out,"w").write("".join(json.dumps(x)+"\n" for x in P))
for x in P:
    assert len(x["title"])<=80,(x["id"],len(x["title"]))
