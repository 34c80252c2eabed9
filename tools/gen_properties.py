#!/usr/bin/env python3
"""Source of properties.jsonl (kept as code so the long texts stay reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                          observe_at=observe, hook_needed=None))
    if state: d["anchors"]["state"] = [dict(name=a, meaning=b) for a, b in state]
    assert len(title) <= 80, title
    P.append(d)

ALLSRC = ["src/core/*", "src/basic/*", "src/math/*", "src/nn/*"]

p("M01", "Every library call is memory-safe and free of undefined behaviour",
  "No library call, whether it succeeds or is rejected, reads or writes outside its arguments, its own live temporary memory and its result, uses memory after releasing it, or executes an undefined operation, other than an arithmetic overflow or conversion whose mathematical result the element type cannot represent. "
  "This holds for every rank from zero upwards, every extent, every element type and every combination of operator parameters, including ones the documentation excludes and that must therefore be rejected.",
  ["inputs", "histories"], "all operators x all element types x all shapes and parameter values, valid or to be rejected, and all sequences of calls feeding one result into the next",
  "The 43 tests run a handful of fixed small shapes and never under instrumentation; an out-of-bounds access or an overflow needs a particular rank, extent, padding, stride or axis and usually leaves the returned numbers unchanged.",
  ALLSRC, [("index arithmetic of every kernel", "src/*/*.c"), ("temporary index arrays sized by rank", "src/nn/conv.c, src/nn/pooling.c, src/basic/slice.c, src/nn/softmax.c"), ("bounds assertions", "src/basic/index_utils.c")],
  ["AddressSanitizer + UndefinedBehaviorSanitizer reports", "process exit state"])

p("M02", "Memory is conserved: every block is released exactly once, failures keep none",
  "Once a caller has destroyed every tensor it was handed, all memory the library obtained has been released exactly once, whatever sequence of succeeding and failing calls came before. "
  "A call that fails keeps no memory (and has not released anything it does not own, in particular neither its inputs nor a data buffer it declined to adopt), a call that succeeds keeps exactly what belongs to the tensor it returns, and destroying a tensor releases its data, shape and handle and resets the handle, after which destroying it again is a harmless no-op.",
  ["inputs", "histories"], "all call sequences over all operators, with succeeding and failing calls in any order",
  "No test measures memory; a leak or a double release on one path leaves all asserted values intact.",
  ALLSRC, [("ownership transfer in create", "src/core/tensor.c, src/core/storage.c"), ("release of shape, layout, storage and handle", "src/core/*.c"), ("temporaries of each operator", "src/*/*.c")],
  ["ledger of all malloc/free calls made by library objects", "LeakSanitizer-equivalent balance per call"],
  [("ledger", "live blocks per origin, checked at every call boundary")])

p("M03", "Running out of memory is reported, never crashes and never corrupts",
  "If any memory request made during a call fails, the call returns a failure status (or still succeeds with the correct result), never crashes, never hands out a tensor, leaves its inputs and the caller's output handle unchanged and releases everything it had obtained. "
  "Every later call behaves as if the failed one had not happened.",
  ["fault_sequences", "inputs"], "every allocation index within every operator call as the failing one, single and sustained failures, over varied shapes, types and parameters",
  "No test injects an allocation failure; each of the roughly hundred allocation sites is a separate fault point.",
  ALLSRC, [("null checks after each raw_alloc", "src/*/*.c"), ("status propagation", "src/core/status.h CHECK_STATUS")],
  ["returned status", "output handle", "ledger balance", "a following fault-free call"])

p("M04", "A user-installed allocator is honoured for everything a tensor owns",
  "After a user installs an allocation and a release function, all memory reachable from tensors created afterwards by any call comes from that allocation function, every block so obtained is given back exactly once and only to the matching release function, and nothing else (no foreign or interior pointer except data buffers the user handed over) is ever passed to it. "
  "This also works for a program linked against the shared library, results are the same as with the built-in allocator, and restoring the built-in pair afterwards is possible.",
  ["configurations", "histories"], "any conforming pair of allocation functions (header-prefixed, arena, guard-page), static and shared linking, all operators",
  "No test installs an allocator; a block that bypasses it or crosses between allocators is invisible with malloc/free as default.",
  ["src/core/allocator.h", "src/core/allocator.c", "src/core/*.c", "src/basic/*.c", "src/math/*.c", "src/nn/*.c"],
  [("default allocator pair and its setters", "src/core/allocator.h"), ("every allocation through the pair", "src/*/*.c")],
  ["tag header on every block", "origin of pointers found in returned tensors", "calls of the user's functions"])

p("M05", "Results never depend on uninitialised memory, addresses or earlier calls",
  "Two executions of the same call with equal inputs and parameters return the same status and a bit-identical result (except for the random mask of dropout), regardless of what freshly obtained memory happens to contain, which addresses blocks get, and which other succeeding or failing calls ran before. "
  "Every element of a returned tensor has been written and no decision is taken on an unwritten value.",
  ["histories", "inputs"], "all operators and inputs, all previous histories, all contents and addresses of fresh memory",
  "Tests run in fresh processes where memory is mostly zero and each operator is called once or twice; stale or uninitialised reads then yield the expected values by accident.",
  ALLSRC, [("accumulator initialisation", "src/math/matmul.c, src/math/dot.c, src/nn/pooling.c"), ("output fully written", "src/*/*.c"), ("no static state between calls", "src/*/*.c")],
  ["MemorySanitizer", "bitwise comparison of runs under different fill patterns, address reuse and histories"])

p("S01", "Operators are pure: inputs untouched, outputs fresh, complete and well-formed",
  "A successful operator call changes nothing in its input tensors (data, shape, type, device, handle) or in the parameter arrays passed to it, even when the same tensor is passed for several operands. "
  "The tensor it returns shares no memory with the inputs, and its rank, extents, element count, byte length, element type and device are mutually consistent, with type and device those of the input (the requested type for casts) and a row-major layout; destroying it or the inputs first makes no difference to the other.",
  ["inputs", "histories"], "all operators, element types, shapes, devices and parameters; operand aliasing; any order of destruction",
  "Tests compare output values only, never re-examine the inputs, and always destroy in the same order.",
  ALLSRC, [("new tensor per result", "src/core/tensor.c aitisa_create"), ("const Tensor parameters", "src/*/*.h")],
  ["byte snapshot of inputs and parameters before/after", "ranges of all blocks of input and output", "accessors and resolve on the output"])

p("S02", "Invalid requests are rejected with a failure status and no side effects",
  "A call whose operands or parameters do not fit together (element types or shapes that do not match, an element type outside the ten, an unsupported type, rank or device, an axis or range outside the tensor, non-positive window, stride or dilation, negative padding, a window larger than the padded input, a group count that does not divide the channels, an unknown mode, a rate outside [0,1] or not a number, a byte length that does not match the shape, a square root of a negative number, an integer division by zero) returns a failure status, namely the documented one where the documentation names it. "
  "It leaves the caller's output handle, the inputs and all parameter arrays unchanged; a call that satisfies the documented requirements is never rejected.",
  ["inputs"], "all operators and all ways in which an argument can violate a documented requirement, alone or combined with otherwise arbitrary valid arguments",
  "Only a few rejections are tested, each with one input; boundary values (last valid axis, window exactly fitting) are not.",
  ["src/basic/*.c", "src/math/*.c", "src/nn/*.c", "src/core/tensor.c", "src/core/status.h"],
  [("parameter checks at the head of each operator", "src/*/*.c"), ("documented status codes", "src/math/binary_op.h, src/math/matmul.h, src/basic/broadcast.h")],
  ["returned status", "output handle before/after", "input and parameter snapshots"])

p("S03", "Concurrent calls do not interfere, even on shared inputs",
  "Operator calls running in different threads, including calls that read the same input tensors, each return the same status and bit-identical result they return when run alone (for dropout: a valid result), without data races inside the library. "
  "Creation and destruction of unrelated tensors may run concurrently with them.",
  ["schedules"], "all interleavings of calls from several threads over all operators, with shared read-only inputs and thread-private outputs",
  "All tests are single-threaded.",
  ALLSRC, [("no mutable static state in operators", "src/*/*.c"), ("read-only dispatch tables", "src/core/types.c, src/math/binary_op.c")],
  ["ThreadSanitizer", "comparison of each concurrent result with its serial result"])

p("S04", "Calls compose: a tensor acts by type, device, extents and elements alone",
  "A tensor produced by any sequence of calls (created and written element by element, adopted from a caller's buffer, filled, duplicated, reshaped, squeezed, sliced out of a larger one, cast, or computed by any operator) is accepted by every call that accepts a freshly created tensor of the same element type, device, extents and elements, and leads to the bit-identical result, at every step of a chain of calls. "
  "Results stay what they are when the tensors they were computed from are overwritten or destroyed, and once everything has been destroyed, in any order, no memory remains.",
  ["histories", "inputs"], "all sequences of calls whose results are operands of later calls, over all operators, types and shapes, with operands released, overwritten or kept between the calls, in any order of destruction",
  "Every test feeds one operator with tensors straight from create; no result is ever used as an operand.",
  ALLSRC, [("every field of the tensor object set by its creator", "src/core/tensor.c, src/core/shape.c, src/core/storage.c"), ("results assembled by each operator", "src/*/*.c")],
  ["status and elements at every step of a chain", "the same call on freshly created operands", "re-inspection of every tensor kept", "ledger of live blocks at the end"])

p("T01", "A tensor faithfully holds what it was created with until it is destroyed",
  "Creating a tensor with a data buffer whose byte length matches the shape adopts that very buffer, and creating it without one provides enough memory for all elements; the resolve call and all accessors then report exactly the given type, device, rank, extents, data pointer, element count and byte length, with the caller's extents array copied, not kept. "
  "Resolving reports success and changes nothing, writing an element by index changes that element and no other, and these facts hold through any interleaving with other tensors' lives.",
  ["inputs", "histories"], "all element types, devices, ranks including zero, extents including zero, with and without data, any interleaving of tensor lifetimes",
  "The single creation test uses one shape and type and ignores the status of resolve.",
  ["src/core/tensor.c", "src/core/tensor.h", "src/core/shape.c", "src/core/storage.c", "src/core/types.c"],
  [("aitisa_create / aitisa_resolve / accessors / set_item", "src/core/tensor.c, src/core/tensor.h")],
  ["return values of resolve and accessors", "data bytes"])

p("T02", "Index conversions and strides are exact inverses in row-major order",
  "For every tensor, converting coordinates to a linear index or memory offset and back yields the same coordinates, the linear index of row-major order increases by one from element to element and covers exactly the range of the element count, and offset and linear index agree for the default layout. "
  "The stride of a dimension is the product of the extents after it, whether asked for singly or for all dimensions at once, and an offset is the sum of coordinate times stride.",
  ["inputs"], "all ranks, extents and coordinates, including element counts beyond 32 bits (shape only, the data buffer need not be touched)",
  "No test calls these functions; operators only exercise them on tiny shapes.",
  ["src/basic/index_utils.c", "src/basic/index_utils.h", "src/core/shape.c"],
  [("coords/linidx/offset conversions, strides", "src/basic/index_utils.c"), ("default layout order", "src/core/shape.c")],
  ["return values"])

p("T03", "Reshape and squeeze keep every element in order and only change the shape",
  "Reshaping to any shape with the same element count yields exactly that shape with all elements bit-identical and in the same linear order, and any other element count is rejected as a dimension mismatch. "
  "Squeezing removes exactly the listed dimensions of extent one (all of them if none is listed, others listed are kept, repetition has no further effect), keeps the remaining extents in order and the data bit-identical, and rejects an axis outside the tensor.",
  ["inputs"], "all element types, bit patterns, shapes, target shapes and axis lists",
  "Tests use one or two shapes each and one element type.",
  ["src/basic/reshape.c", "src/basic/squeeze.c"],
  [("aitisa_reshape", "src/basic/reshape.c"), ("aitisa_squeeze", "src/basic/squeeze.c")],
  ["output shape and bytes"])

p("T04", "Slice picks exactly the requested elements; duplicate is an exact copy",
  "A slice with per-dimension begin, size and step returns, in row-major order and bit-identical, the elements at begin, begin+step, ... that lie below begin+size, with extent ceil(size/step) in each dimension and dimensions of size zero fixed at begin and removed; it is rejected exactly when a begin lies outside its dimension, a size is negative or reaches beyond it, or a step is below one. "
  "Duplicating a non-empty tensor of any rank, including zero, returns an equal tensor that is independent of the original.",
  ["inputs"], "all element types, bit patterns, ranks, extents and begin/size/step combinations, including ones near the integer limits",
  "Tests check two slices and one duplicate.",
  ["src/basic/slice.c", "src/basic/duplicate.c"],
  [("range check and index recorder", "src/basic/slice.c"), ("duplicate via full slice", "src/basic/duplicate.c")],
  ["output shape and bytes", "status"])

p("T05", "Cast converts every element exactly as the language converts the value",
  "Casting between any two of the ten element types (including to the same type, which yields an equal independent tensor) returns a tensor of the requested type and the same shape and device whose every element is the source element converted with C semantics: integers modulo the width, floating to integer by truncation when representable, exact or correctly rounded otherwise. "
  "Values a type can represent survive a cast unchanged, including 64-bit integers beyond 2^53.",
  ["inputs"], "all 100 type pairs and all representable element values, including extremes, negative zero, infinities and NaN towards floating types",
  "Tests cover one or two type pairs and small values.",
  ["src/basic/cast.c", "src/core/dispatch.h"],
  [("cast_template dispatch over type pairs", "src/basic/cast.c")],
  ["output elements compared bitwise with the scalar conversion"])

p("T06", "Filling produces the requested constant in every element of every type",
  "Creating a filled tensor gives every element, from first to last, the requested value converted to the element type with C semantics (truncation towards zero for integers, rounding to nearest for floats), with the requested shape, type and device, for every value representable in the type. "
  "This includes rank zero and tensors with very many elements.",
  ["inputs"], "all element types, shapes and representable values, including negative, fractional, extreme and special values",
  "Filling is only used indirectly by a few tests with zero or small values.",
  ["src/basic/factories.c", "src/core/types.c"],
  [("aitisa_full", "src/basic/factories.c"), ("castto_typed_value", "src/core/types.c")],
  ["all elements compared bitwise"])

p("A01", "Element-wise arithmetic is exact for every element and element type",
  "Adding, subtracting, multiplying or dividing two tensors of equal shape and type yields in every element the C result of that operation on the two corresponding elements: exact for integers whenever representable, modulo 2^width for unsigned overflow, truncated quotients for integer division, and the IEEE result for floating types including infinities, signed zeros and division by zero. "
  "Integer division by zero or of the most negative value by minus one where the quotient does not fit is reported as a math error instead of trapping.",
  ["inputs"], "all ten element types, all shapes and all element values",
  "Tests use float and one or two shapes with hand-written values.",
  ["src/math/binary_op.c", "src/core/types.c"],
  [("calc_*_value per type and operation", "src/math/binary_op.c"), ("typed array get/set tables", "src/core/types.c")],
  ["every output element compared with an independent scalar computation"])

p("A02", "Matrix products equal the defining sums for all ranks, with batch broadcasting",
  "The product of two tensors has the documented shape for every combination of ranks (vectors act as one-row or one-column matrices whose extra dimension is dropped, vector times vector gives one element in a rank-one tensor, leading batch dimensions broadcast) and each element equals the sum of products over the shared extent, exactly when the arithmetic is exact and within rounding error otherwise. "
  "It is available for all element types. An infinite or NaN element reaches the results it contributes to, as IEEE arithmetic has it, and no other.",
  ["inputs"], "all rank combinations, extents including one and primes, batch shapes to be broadcast on either side, all element types",
  "Seven fixed shape combinations are tested, mostly float.",
  ["src/math/matmul.c", "src/basic/broadcast.c"],
  [("vv/mv/mm/batch kernels", "src/math/matmul.c"), ("batch strides with broadcasting", "src/math/matmul.c"), ("aitisa_broadcast_array", "src/basic/broadcast.c")],
  ["all output elements and the shape compared with an independent reference"])

p("A03", "Dot follows its documented contraction for every supported rank pair",
  "The dot product contracts the last dimension of the first operand with the only or second-to-last dimension of the second (inner product for two vectors, matrix product for two matrices, tensor-vector and tensor-tensor contraction for higher ranks) and multiplies element by element when one operand has rank zero; the result's shape is the remaining extents in order and every element equals the defining sum or product, exactly when the arithmetic is exact (including 64-bit integers) and within rounding error otherwise. An infinite or NaN element reaches the results it contributes to and no other.",
  ["inputs"], "all supported rank pairs, extents and element types; integer values up to the type's range",
  "Five fixed examples are tested.",
  ["src/math/dot.c", "src/math/matmul.c"],
  [("vector_vector_dot, tensor_vector_dot, multidim_dot, scalar_tensor_mul", "src/math/dot.c")],
  ["all output elements and the shape compared with an independent reference"])

p("A04", "Shape broadcasting follows the documented right-aligned rule",
  "Broadcasting two extent lists compares them from the last dimension backwards: equal extents are kept, an extent of one yields the larger of the two, missing leading dimensions are taken from the longer list, and any other pair is reported as a dimension mismatch. "
  "The result does not depend on the order of the operands, exactly the trailing entries of the caller's result array are written, and the inputs are unchanged.",
  ["inputs"], "all pairs of extent lists of any lengths, including empty ones, and extents up to 64-bit size",
  "Two examples are tested.",
  ["src/basic/broadcast.c", "src/basic/broadcast.h"],
  [("aitisa_broadcast_array", "src/basic/broadcast.c")],
  ["result array with guard entries", "status"])

p("N01", "Convolution equals its defining sum for all geometries",
  "For float tensors of any spatial rank the convolution has output extent floor((input + 2*padding - dilation*(kernel-1) - 1)/stride) + 1 per spatial dimension and every element equals the sum over the channels of its group and all kernel positions of input times filter, with zeros outside the input. "
  "The 2d and 3d entry points give the same result for their rank, and channel groups work as documented: each group of output channels sees only its own slice of input channels. An infinite or NaN input element reaches the windows that contain it and no other.",
  ["inputs"], "all batch sizes, channel counts, spatial ranks, kernel extents, strides, paddings, dilations (also different per dimension) and group counts",
  "Three fixed geometries are tested, all with one group and little variation per dimension.",
  ["src/nn/conv.c", "src/nn/conv.h", "src/basic/index_utils.c"],
  [("conv_output_dims", "src/nn/conv.c"), ("aitisa_conv_float loops", "src/nn/conv.c")],
  ["all output elements and the shape compared with an independent reference"])

p("N02", "Pooling equals its defining window maximum or average for all geometries",
  "Pooling in max or avg mode over 1 to 3 spatial dimensions has output extent floor((input + 2*padding - dilation*(window-1) - 1)/stride) + 1 and each element is the maximum, or the sum divided by the full window size, over the positions of its window, where positions in the padding count as zero. "
  "Maxima are exact for every element type including all-negative windows and large 64-bit integers; averages are truncated for integer types as long as the window sum is exact in double precision.",
  ["inputs"], "all batch sizes, channels, spatial ranks, windows, strides, paddings and dilations (also different per dimension), all element types and value distributions",
  "A few fixed geometries with positive values are tested.",
  ["src/nn/pooling.c", "src/nn/pooling.h"],
  [("pooling_create_output", "src/nn/pooling.c"), ("window walk and accumulation", "src/nn/pooling.c")],
  ["all output elements and the shape compared with an independent reference"])

p("N03", "Batch normalisation applies the per-channel formula to every element",
  "For float and double inputs of rank 2 to 5 with channels in dimension 1 or in the last dimension, every output element equals scale * (x - mean) / sqrt(variance + epsilon) + bias with the parameters of its own channel, within rounding error, in the same shape as the input. "
  "No element is mixed with another channel, sample or position, for any extents, infinite and NaN elements included.",
  ["inputs"], "all ranks 2..5, both channel positions, all extents including one, all parameter values with non-negative variance + epsilon",
  "Three fixed inputs are tested.",
  ["src/nn/batch_norm.c", "src/nn/batch_norm.h"],
  [("per-channel slicing and transport", "src/nn/batch_norm.c")],
  ["all output elements compared with the formula"])

p("N04", "Relu, sigmoid, tanh and square root are correct for every element value",
  "Each of relu (all types: negative becomes zero, every other number is unchanged), sigmoid and tanh (floating types) and square root (all types, truncated for integers up to 2^52) applies its mathematical function to each element separately, within a few units in the last place of the element type (sigmoid and tanh: within small relative or absolute error), in the same shape and type. "
  "Sigmoid stays within [0,1] and tanh within [-1,1] for every finite and infinite value, never becoming NaN unless the input is NaN.",
  ["inputs"], "all element values including zeros, denormals, extremes, infinities; all shapes and sizes",
  "Tests check a few small values.",
  ["src/nn/relu.c", "src/nn/sigmoid.c", "src/nn/tanh.c", "src/math/sqrt.c"],
  [("element kernels", "src/nn/relu.c, src/nn/sigmoid.c, src/nn/tanh.c, src/math/sqrt.c")],
  ["every element compared with a long double reference"])

p("N05", "Softmax is a correct, stable normalised exponential along the chosen axis",
  "For floating tensors softmax along an axis (or over the whole tensor for axis -1) returns exp(x)/sum(exp(x)) for every element within rounding error, so every slice along the axis sums to one and lies in [0,1]. "
  "This holds for every finite input however large or small its values and for slices with elements of minus infinity (masked positions, which get zero); a NaN makes its own slice NaN, and slices do not influence each other.",
  ["inputs"], "all ranks, axes, extents including one, and all finite values, including ones whose exponential overflows or underflows",
  "Tests check one tensor along a few axes with small values.",
  ["src/nn/softmax.c", "src/nn/softmax.h"],
  [("whole-tensor and along-axis kernels", "src/nn/softmax.c")],
  ["every element compared with a long double reference", "sum of each slice"])

p("N06", "Dropout zeroes about the requested share of elements and changes nothing else",
  "Every element of a dropout result is either bit-identical to the corresponding input element or zero; rate 0 changes nothing and rate 1 zeroes everything. "
  "In between, every element, wherever it lies in the tensor and whatever its type, is zeroed with the requested probability to within one percentage point, independently of the element values.",
  ["inputs", "histories"], "all rates, element types, shapes and values",
  "The test only prints or checks one small tensor at one rate.",
  ["src/nn/dropout.c", "src/nn/dropout.h"],
  [("dropout_kernel", "src/nn/dropout.c")],
  ["element-wise comparison with the input", "binomial confidence bounds on zero counts over regions"])

p("H01", "The conformance suite accepts faithful user code and rejects deviating code",
  "A user implementation that agrees with the library passes the conformance test suite for arithmetic, matrix product and activations; one that deviates in a single result element by more than the stated tolerance, in an extent, in the element type, in the byte length or in the device fails it. "
  "The verdict depends only on the user implementation's observable results.",
  ["programs"], "all user implementations plugged into the suite: the faithful one and every single-point deviation of it",
  "The suite is never instantiated by the repository's own tests.",
  ["auto_test/auto_test.h", "auto_test/basic.h", "auto_test/test_code/*.h"],
  [("typed test suites and comparison loops", "auto_test/test_code/*.h")],
  ["exit status and failure list of the instantiated suite"])

p("H02", "Sample containers of the conformance framework keep and release data correctly",
  "Copying, moving, assigning and destroying sample inputs and results in any order keeps every still-referenced buffer intact and readable with its original content and releases each buffer exactly once when its last owner goes. "
  "A moved-from or default-constructed container can be destroyed and assigned to.",
  ["histories"], "all sequences of construction, copy, move, assignment (including self-assignment) and destruction over several containers",
  "No test constructs these classes.",
  ["auto_test/sample.h", "auto_test/sample.cpp", "auto_test/test_code/conv_test.h"],
  [("hand-written reference count", "auto_test/sample.h, auto_test/sample.cpp")],
  ["AddressSanitizer", "buffer contents", "count of live buffers"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for d in P: f.write(json.dumps(d) + "\n")
print(len(P), "properties")
