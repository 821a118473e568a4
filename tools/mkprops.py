#!/usr/bin/env python3
"""Source of properties.jsonl (kept as a script so that long texts stay readable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), obs=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(obs), hook_needed=hook)))
CORE="rstsr-core/src/"; COM="rstsr-common/src/"; NAT="rstsr-native-impl/src/"
TS=CORE+"tensor/"

prop("P01","Indexing and slicing select exactly the requested elements, in bounds",
 "For every tensor, however it was derived, and every list of index items (integer, range with any start/stop/step sign, inserted axis, ellipsis), the resulting view has the shape of NumPy's basic indexing and each of its elements is the very element of the parent that the index denotes. Every element of every view lies inside the underlying buffer. Requests that are out of range or have too many items are rejected with an error and never yield a view.",
 ["inputs","histories"],"all shapes, strides (negative, zero, permuted), offsets, index lists, and chains of views of views",
 "The tests slice a handful of contiguous arrays; the guarantee is about every combination of index items and of inherited stride/offset, including negative steps on already reversed axes and empty ranges.",
 [COM+"layout/indexer.rs",COM+"layout/slice.rs",COM+"layout/layoutbase.rs",TS+"indexing.rs"],
 [("index normalisation and stride/offset arithmetic",COM+"layout/indexer.rs"),("bounds check",COM+"layout/layoutbase.rs")],
 [("layout","shape, strides and offset of a view",COM+"layout/layoutbase.rs")],["slice/i/slice_mut/into_slice/diagonal results: element addresses and values"])
prop("P02","Axis manipulation is a pure relabelling of the same elements",
 "Transposing, permuting, swapping, moving, reversing or flipping axes, adding or removing unit axes and taking diagonals return a view whose every logical position maps to exactly the documented position of the source, over the same storage with no element copied or changed. Doing the inverse manipulation gives back the original mapping. Axis arguments that are out of range, duplicated or of the wrong number are rejected as errors.",
 ["inputs","histories"],"all tensors with any layout, all axis arguments (positive, negative, invalid) and all compositions",
 "Tests try single calls on small contiguous arrays; composition with negative, zero or permuted strides and every axis spelling is not sampled.",
 [TS+"manipulation/transpose.rs",TS+"manipulation/flip.rs",TS+"manipulation/moveaxis.rs",TS+"manipulation/expand_dims.rs",TS+"manipulation/squeeze.rs",TS+"indexing.rs",COM+"layout/layoutbase.rs"],
 [("axis normalisation",COM+"axis_index.rs"),("layout permutation",COM+"layout/layoutbase.rs")],
 [("layout","shape, strides and offset",COM+"layout/layoutbase.rs")],["transpose/permute_dims/swapaxes/moveaxis/flip/expand_dims/squeeze/diagonal results"])
prop("P03","Reshape and layout conversion keep the element sequence",
 "Reshaping, flattening, converting to a contiguous/preferred/explicit layout, and converting between fixed and dynamic dimensionality keep the sequence of elements as read in the requested (default: device) order, for any source layout. The result shares storage only if a view with the requested shape exists, otherwise it is a fresh independent copy; element counts that do not match, ambiguous or impossible inferred sizes are rejected as errors.",
 ["inputs","configurations"],"all source layouts and target shapes, row- and column-major order, copy policies",
 "Whether a strided tensor can be reshaped without copying depends on a combinatorial relation of shape and strides; tests fix a few.",
 [TS+"manipulation/reshape.rs",TS+"manipulation/to_contig.rs",TS+"manipulation/to_layout.rs",TS+"manipulation/into_dim.rs",COM+"layout/reshape.rs",COM+"layout/rearrangement.rs",NAT+"cpu_serial/assignment.rs",NAT+"cpu_rayon/assignment.rs"],
 [("zero-copy reshape decision",COM+"layout/reshape.rs"),("arbitrary-layout copy",NAT+"cpu_serial/assignment.rs")],
 [("layout","shape, strides and offset",COM+"layout/layoutbase.rs")],["reshape/into_shape/change_shape/to_contig/to_prefer/to_layout/into_dim/to_vec results"])
prop("P04","Broadcasting follows the published rule in both storage orders",
 "Two shapes combine exactly when, aligned at the trailing axes in row-major mode (leading axes in column-major mode), each pair of lengths is equal or one of them is 1; the combined shape and the element used at every position follow that rule for operators, explicit broadcasting and multi-array broadcasting alike. Incompatible shapes are rejected with an error, and assigning to or filling a tensor that is itself broadcast is rejected.",
 ["inputs","configurations"],"all pairs and lists of shapes including zero lengths and rank 0, both orders, all source layouts",
 "Tests check a few compatible pairs; the rule has to hold for every pair and for both modes, and rejection matters as much as acceptance.",
 [COM+"layout/broadcast.rs",TS+"manipulation/broadcast.rs",TS+"operators/op_binary_arithmetic.rs",TS+"operators/op_binary_common.rs"],
 [("shape combination",COM+"layout/broadcast.rs")],[],["broadcast_shapes/broadcast_to/broadcast_arrays/operators: shape and elements"])
prop("P05","Elementwise results depend only on values, not on layout or ownership",
 "A unary or binary arithmetic, comparison, bitwise or user-mapped operation yields at each position the scalar operation applied to the operand elements at that position, whatever the strides, offsets, storage order, dimensionality type, ownership form (owned, view, scalar) or device thread count. Operands passed by reference are unchanged; operands passed by value may be reused but never alter any other tensor.",
 ["inputs","configurations","histories"],"all operand layouts, ownership combinations, scalars on either side, operators, dtypes, sizes above and below the parallel threshold",
 "Each operator has several specialised paths (contiguous, same-stride, broadcast, reuse of an operand's buffer, parallel); tests touch mostly the contiguous one.",
 [TS+"operators/op_binary_arithmetic.rs",TS+"operators/op_binary_common.rs",TS+"operators/op_unary_arithmetic.rs",TS+"operators/op_unary_common.rs",TS+"map_elementwise.rs",CORE+"device_cpu_serial/operators",NAT+"cpu_serial/op_with_func.rs",NAT+"cpu_rayon/op_with_func.rs",COM+"layout/matmul.rs",COM+"layout/rearrangement.rs"],
 [("layout co-translation",COM+"layout/rearrangement.rs"),("buffer reuse of owned operands",TS+"operators/op_binary_arithmetic.rs")],[],["operator results and later contents of every live tensor"])
prop("P06","Writing through a tensor or view changes exactly the addressed elements",
 "In-place arithmetic, assignment, filling, in-place mapping, element assignment and writing into a supplied output change precisely the elements addressed by the target, to the values defined by the broadcast source, and leave every other element of every buffer untouched. Rejected writes (a source that does not broadcast to the target, assigning to or filling a broadcast target) change nothing.",
 ["inputs","histories"],"all target views (overlapping strides excluded by construction), all sources, sequences of interleaved writes and reads through many views of one buffer",
 "Frame conditions concern the elements an operation must not touch, for arbitrary aliasing of views; tests look at the target only.",
 [TS+"assignment.rs",TS+"operators/op_binary_assign.rs",TS+"map_elementwise.rs",TS+"indexing.rs",NAT+"cpu_serial/assignment.rs",NAT+"cpu_rayon/assignment.rs",NAT+"cpu_serial/op_with_func.rs"],
 [("assignment kernels",NAT+"cpu_serial/assignment.rs"),("layout pairing",COM+"layout/rearrangement.rs")],
 [("buffer","contents of the shared storage",CORE+"storage/data.rs")],["complete contents of every buffer after each write"])
prop("P07","Element iterators deliver every element exactly once, in order",
 "Iterating a tensor's elements, plainly, mutably, with indices, backwards, from both ends in any interleaving, with skips, or split for parallel consumption, yields every element exactly once, each paired with its own index, in the requested order, and the remaining count is always exact. Order-preserving and layout-chosen orders visit the same set of elements.",
 ["schedules","inputs"],"all interleavings of front and back steps and of recursive splits, all layouts, all iteration orders",
 "The exactly-once guarantee quantifies over interleavings of next/next_back/nth/split; tests run forward loops.",
 [TS+"iterator_elem.rs",COM+"layout/iterator.rs",CORE+"feature_rayon/par_iter.rs",COM+"par_iter.rs"],
 [("two-ended index cursor",COM+"layout/iterator.rs"),("split for parallel producers",COM+"layout/iterator.rs")],
 [("front and back cursors","positions not yet delivered",COM+"layout/iterator.rs")],["items yielded by iter/iter_mut/indexed_iter/into_par_iter and their len()"])
prop("P08","Axis iterators deliver every sub-tensor exactly once, in order",
 "Iterating over chosen axes yields, for each combination of positions on these axes exactly once and in the requested order, the sub-view of the remaining axes that fixes this combination, paired with its own index in the indexed forms; any interleaving of front, back and split consumption is covered, and mutable sub-views never overlap. Invalid axes are rejected as errors.",
 ["schedules","inputs"],"all axis subsets and orders, all layouts, all interleavings of front/back/split",
 "As for element iteration, plus the choice of axes; tests iterate forward over one or two axes.",
 [TS+"iterator_axes.rs",CORE+"feature_rayon/par_iter.rs",COM+"layout/layoutbase.rs"],
 [("outer-axes cursor",TS+"iterator_axes.rs")],[("front and back cursors","sub-views not yet delivered",TS+"iterator_axes.rs")],["items of axes_iter/axes_iter_mut/indexed_axes_iter and parallel forms"])
prop("P09","Reductions equal the fold over exactly the reduced elements",
 "Sum, product, minimum, maximum, mean, variance, standard deviation, norm, any, all and non-zero count, over the whole tensor or any set of axes, give for every output position the reduction of exactly the input elements sharing this position, independent of memory layout, storage order, thread count and the order in which axes are named. Empty reductions give the identity or a documented error.",
 ["inputs","schedules","configurations"],"all layouts, axis sets, sizes around blocking and parallel thresholds, thread counts",
 "Reduction kernels choose between five traversal strategies from the strides; tests compare few layouts and sizes.",
 [TS+"reduction.rs",CORE+"device_cpu_serial/reduction.rs",NAT+"cpu_serial/reduction.rs",NAT+"cpu_rayon/reduction.rs"],
 [("axis splitting and traversal choice",NAT+"cpu_serial/reduction.rs"),("parallel partition and combination",NAT+"cpu_rayon/reduction.rs")],[],["values and shape of each reduction"])
prop("P10","Arg-reductions return the first extremal position",
 "The position returned by arg-min and arg-max, flat or as a multi-index, over the whole tensor or along axes, holds an extremal value among exactly the elements reduced, and is the first such position in row-major order of the named axes, independent of memory layout, threads and size. Zero-length reductions are errors.",
 ["inputs","schedules"],"all layouts, ties, axis sets, thread partitions",
 "Which of several tied positions is returned depends on the traversal and on the partition among threads.",
 [TS+"reduction.rs",NAT+"cpu_serial/reduction.rs",NAT+"cpu_rayon/reduction.rs"],
 [("tie-breaking comparison",NAT+"cpu_serial/reduction.rs"),("combination of partial winners",NAT+"cpu_rayon/reduction.rs")],[],["argmin/argmax/unraveled_* results"])
prop("P11","Matrix products equal the mathematical contraction for every layout",
 "Vector-vector, vector-matrix, matrix-matrix and batched products, the output-accumulating form with scale factors, and the vector dot product equal the defining sums for all operand layouts, broadcast batch shapes, storage orders and devices, with the documented shape rules; incompatible shapes are errors. Accumulating forms write only the output.",
 ["inputs","configurations"],"all ranks 1-4, transposed/strided/negative/broadcast layouts, empty dimensions, both orders, serial, threaded and BLAS devices",
 "Dispatch picks among gemm, syrk, gemv, dot and naive kernels from layout flags; wrong transposition or leading dimension shows only for specific layouts.",
 [TS+"linalg",CORE+"operators/matmul.rs",CORE+"device_cpu_serial/linalg",CORE+"device_faer/matmul.rs",CORE+"device_faer/matmul_impl.rs","crates-device/rstsr-openblas/src/matmul.rs","crates-device/rstsr-openblas/src/matmul_impl.rs",COM+"layout/matmul.rs",NAT+"cpu_serial/matmul_naive.rs"],
 [("shape and batch rules",COM+"layout"),("transposition and leading-dimension dispatch",CORE+"device_faer/matmul_impl.rs")],[],["matmul/matmul_from/vecdot results"])
prop("P12","Joining and splitting tensors preserve every element and its place",
 "Concatenating, stacking (also horizontally/vertically) puts every element of each input at the documented place of the result and nothing else, splitting gives back the parts, and forming grids, diagonals and minimum-rank forms places elements as documented, for inputs of any layout and number. Shape or axis mismatches are rejected.",
 ["inputs"],"all numbers of inputs, shapes, axes (negative included), layouts, orders",
 "Tests join two or three contiguous arrays on one axis.",
 [TS+"creation_from_tensor.rs"],[("slice-and-assign into the result",TS+"creation_from_tensor.rs")],[],["concat/stack/hstack/vstack/unstack/meshgrid/diag/atleast results"])
prop("P13","Selection by index list or mask gathers exactly the listed elements",
 "Selecting along an axis by a list of positions (negative, repeated, in any order, from any integer type or tensor) or by a boolean mask returns the slices at exactly these positions in that order, for any source layout and device; positions out of range are rejected as errors and the source is unchanged.",
 ["inputs"],"all layouts, axes, index lists, masks, devices",
 "Tests use short in-range lists on contiguous arrays.",
 [TS+"adv_indexing.rs",CORE+"device_cpu_serial/adv_indexing.rs",NAT+"cpu_serial/adv_indexing.rs",NAT+"cpu_rayon/adv_indexing.rs"],
 [("gather kernel",NAT+"cpu_serial/adv_indexing.rs"),("parallel gather",NAT+"cpu_rayon/adv_indexing.rs")],[],["index_select/take/bool_select results"])
prop("P14","Threaded execution gives the serial result for every thread count",
 "For every operation with a parallel implementation, the result is the one of the serial definition for every thread count, partition of the work and size around the switch-over thresholds, inside and outside an enclosing thread pool. Every element of an output is written exactly once by parallel workers.",
 ["schedules","configurations","inputs"],"all chunk partitions and combination orders, thread counts 1..n, sizes around thresholds",
 "Schedules are not controlled by tests, and sizes above the thresholds with non-contiguous layouts are hardly tested.",
 [NAT+"cpu_rayon",CORE+"feature_rayon",CORE+"device_faer"],
 [("work partition",NAT+"cpu_rayon"),("pool selection",CORE+"feature_rayon/device.rs")],
 [("partition","chunks of the index range",NAT+"cpu_rayon")],["results of threaded operations per thread count"])
prop("P15","Sharing, cloning and copy-on-write never leak a write",
 "Converting between owned, borrowed, shared and copy-on-write tensors, cloning them and dropping them keeps every logical tensor's content: a write through one owner is visible exactly through the views of the same storage and never through an independent owner. Taking ownership of exclusively held data of full extent may move it, otherwise it copies only the addressed elements; shared data stays intact for the remaining holders.",
 ["histories"],"all sequences of conversions, clones, writes, drops over a set of tensors",
 "Leaks need particular histories (convert, clone, write, drop in some order); tests do single conversions.",
 [CORE+"storage/data.rs",TS+"ownership_conversion.rs",TS+"tensor_mutable.rs",CORE+"storage/conversion.rs"],
 [("ownership wrappers",CORE+"storage/data.rs"),("move-or-copy decision",TS+"ownership_conversion.rs")],
 [("ownership state and reference count","who may write a buffer",CORE+"storage/data.rs")],["content of every live tensor after each step"])
prop("P16","The fallible interface reports bad requests as errors and changes nothing",
 "Every operation offered in a fallible form returns an error, and does not panic, hang or silently answer, for any argument it cannot honour (axis, shape, index, size, device or order mismatch), leaving all operands as they were. The infallible form panics exactly where the fallible form returns an error and agrees with it otherwise.",
 ["inputs"],"all operations with all kinds of invalid arguments, including extreme integers and zero-sized tensors",
 "Rejection paths are barely tested and the space of wrong arguments is unbounded.",
 [TS+"iterator_axes.rs",TS+"manipulation",TS+"indexing.rs",TS+"creation.rs",COM+"axis_index.rs",COM+"error.rs"],
 [("argument validation macros",COM+"error.rs")],[],["Result of *_f calls; panics observed by the caller"])
prop("P17","Creation functions produce exactly the documented contents and layout",
 "Constant, range, linear-space, identity, from-data and like-another-tensor constructors produce the documented shape, contents and storage order for all parameters on every device, consuming or borrowing exactly the supplied data; data whose length does not fit the requested layout is rejected.",
 ["inputs","configurations"],"all shapes, ranges with any sign of step, offsets of diagonals, orders, dtypes, explicit layouts",
 "Tests cover default calls; boundary cases of ranges, zero sizes, custom layouts are not sampled.",
 [TS+"creation.rs",TS+"asarray.rs",CORE+"device_cpu_serial/creation.rs"],
 [("device creation API",CORE+"device_cpu_serial/creation.rs"),("layout/length check",TS+"asarray.rs")],[],["created tensors' shape, layout and values"])
prop("P18","Triangular masks, packing and unpacking are exact inverses",
 "Keeping the lower or upper triangle relative to any diagonal zeroes exactly the other elements; packing a symmetric or triangular matrix (batch) and unpacking it with the matching symmetry restores the documented matrix, for every size, storage order, layout and device. The packed positions enumerate the triangle in the documented order with every element once.",
 ["inputs","configurations"],"all sizes, batch shapes, diagonals, triangles, symmetries, layouts, orders",
 "Tests check one or two sizes for contiguous input.",
 [TS+"linalg",NAT+"cpu_serial/op_tri.rs",NAT+"cpu_rayon/op_tri.rs",TS+"creation.rs",CORE+"device_cpu_serial/operators"],
 [("packed index formulas",NAT+"cpu_serial/op_tri.rs")],[],["tril/triu/pack_tri/unpack_tri results"])
prop("P19","Column-major mode is the exact mirror of row-major mode",
 "For every program of operations, running it in column-major mode on operands with all axes reversed (and axis arguments mirrored) yields the axis-reversed results of the row-major run, wherever the documentation does not fix an order. No operation silently mixes the two modes: operands on devices of different mode are rejected.",
 ["programs","configurations"],"all op sequences, both modes",
 "Tests run a subset once per mode with hand-written expectations; a mirror relation over programs is not expressed.",
 [COM+"layout/broadcast.rs",COM+"layout/reshape.rs",TS+"manipulation",CORE+"storage/device.rs"],
 [("default order carried by the device",CORE+"storage/device.rs")],[("default order","row- or column-major mode of a device",CORE+"storage/device.rs")],["results of the mirrored programs"])
prop("P20","Solving and factorising agree with their defining equations for any layout",
 "Linear-algebra routines on a device (inverse, determinant, linear and triangular solves, Cholesky, eigen and singular value decompositions) return results satisfying their defining equations on exactly representable inputs, independent of the layout, triangle storage convention and storage order of the operands; borrowed operands are not changed by the call.",
 ["inputs","configurations"],"integer matrices of any small size, all layouts of operands, upper/lower conventions, both orders",
 "Wrappers transpose, copy and overwrite operands depending on layout; tests use one contiguous matrix per routine.",
 ["rstsr-linalg-traits/src/blas_impl","rstsr-linalg-traits/src/faer_impl","rstsr-linalg-traits/src/ref_impl_blas.rs","rstsr-blas-traits/src"],
 [("operand preparation and write-back","rstsr-linalg-traits/src/ref_impl_blas.rs")],[],["solutions and operands after the call"])
prop("P21","Pairwise distances equal their metric for every pair and layout",
 "Pairwise distance computation returns, for every pair of rows of the two inputs, exactly the metric's value on these rows with the documented weights, independent of layout, storage order and threads; mismatched shapes are rejected.",
 ["inputs","configurations"],"all metrics, sizes, layouts, orders, thread counts",
 "Each metric has blocked/unrolled loops with remainders; tests use one size per metric.",
 ["rstsr-sci-traits/src/distance"],[("blocked metric kernels","rstsr-sci-traits/src/distance")],[],["cdist results"])
prop("P22","Numeric accuracy of floating-point decompositions",
 "Eigenvalue and singular-value routines attain the accuracy of the underlying numeric library for every well-conditioned floating-point input.",
 ["inputs"],"all floating-point inputs",
 "Accuracy over a continuum of inputs cannot be sampled exhaustively.",
 ["rstsr-linalg-traits/src"],[("LAPACK/faer call","rstsr-linalg-traits/src")],[],["decomposition residuals"])
prop("P23","Moving tensors between devices and dtypes preserves the logical tensor",
 "Copying or moving a tensor to another device or mode, to another element type by casting, or into and from plain vectors and scalars preserves shape and, at each position, the (cast) value, for every layout; the source of a copy is unchanged.",
 ["inputs","configurations"],"all layouts, device pairs, ownership forms, casts between supported dtypes",
 "Tests convert contiguous arrays once per device.",
 [TS+"device_conversion.rs",CORE+"storage/conversion.rs",CORE+"device_cpu_serial/conversion.rs",CORE+"device_faer/conversion.rs",TS+"ext_conversion.rs",TS+"pack_array.rs","rstsr-dtype-traits/src"],
 [("device change API",CORE+"storage/conversion.rs")],[],["converted tensors"])
prop("P25","Sphere quadrature rules are exact for every polynomial up to their order",
 "For each of the 32 published orders, and for no other request, a Lebedev rule is delivered, on every device and through every entry point: as many distinct unit points as the order has, closed under the symmetries of the octahedron with equal weights, whose weighted sum of any polynomial of degree up to the order is that polynomial's mean over the sphere (weights add up to one), to the accuracy of the number format. Order and number of points determine each other.",
 ["inputs"],"all orders and sizes, valid or not; all polynomials up to the order",
 "The only test prints one rule; a wrong digit in 1500 table lines or a wrong sign in an orbit is invisible without the exactness condition over all polynomials.",
 ["rstsr-sci-traits/src/integrate"],[("tables and orbits","rstsr-sci-traits/src/integrate/lebedev.rs")],[],["points and weights"])
prop("P24","Only sound layouts are admitted; their predicates and traversals are exact",
 "A layout or tensor can be built from explicit shape, strides and offset exactly when every position gets its own element inside the storage (broadcast axes aside) under the documented stride rule; anything else is refused with an error. Size, bounds, contiguity, preference and broadcast predicates tell the truth about the layout, index and unravel arithmetic is exact, and the rearrangements of one or several layouts used for traversal, copying and the output of binary operations visit the same elements in the same pairing, in the requested order where one is requested.",
 ["inputs","configurations"],"all shapes, strides of either sign or zero, offsets, storage lengths; all iteration orders; one to several operands",
 "Tests build a few layouts; admission, predicates and axis merging depend on a combinatorial relation of shape and strides of all operands at once.",
 [COM+"layout/layoutbase.rs",COM+"layout/rearrangement.rs",COM+"layout/shape.rs",COM+"layout/reshape.rs",CORE+"tensorbase.rs",TS+"asarray.rs"],
 [("stride and bounds check",COM+"layout/layoutbase.rs"),("axis sorting and merging",COM+"layout/rearrangement.rs")],
 [("layout","shape, strides and offset",COM+"layout/layoutbase.rs")],["Layout::new, Tensor::new_f, asarray, translate_to_col_major*, layout_for_array_copy, get_layout_for_binary_op results"])

out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for p in P:
        assert len(p["title"])<=80,p["title"]
        for fn in p["anchors"]["files"]+[m["where"] for m in p["anchors"]["mechanism"]]+[m["where"] for m in p["anchors"]["state"]]:
            if not os.path.exists("/repo/"+fn): print("missing",p["id"],fn)
        f.write(json.dumps(p)+"\n")
print(len(P))
