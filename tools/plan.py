"""Which specification modules, drivers and trace specifications decide each property."""


def t(name, bin, spec, *args, **kw):
    return dict(name=name, bin=bin, spec=spec, args=list(args), **kw)


TENSOR_MC = dict(module="MC_Tensor", cfg="MC_Tensor.cfg", cfg_thorough="MC_Tensor_deep.cfg", emit="CHAIN")

FOLD_MC = dict(module="MC_Fold", cfg="MC_Fold.cfg", cfg_thorough="MC_Fold_deep.cfg")

ITER_MC = dict(module="MC_Iter", cfg="MC_Iter.cfg", cfg_thorough="MC_Iter_deep.cfg", emit="SCHED")

PAR_MC = dict(module="MC_Par", cfg="MC_Par.cfg", cfg_thorough="MC_Par_deep.cfg")

TRI_MC = dict(module="MC_Tri", cfg="MC_Tri.cfg", cfg_thorough="MC_Tri_deep.cfg")

PLAN = {
    "P01": dict(
        mc=[TENSOR_MC],
        traces=[t("views", "machine", "TraceMachine", "P01", input="MC_Tensor", sample=8)],
        note="Exhaustive over all chains of two view operations on a 2x3 tensor (58k chains, a sample of them replayed on the library in quick mode) plus seeded random sessions; the library is judged on every recorded call. Trusts TLC, the harness's recording and the harness reading layouts through shape/stride/offset.",
    ),
    "P02": dict(
        mc=[TENSOR_MC],
        traces=[t("views", "machine", "TraceMachine", "P02", input="MC_Tensor", sample=8)],
        note="As P01, with the operations that move, insert, remove, reverse or broadcast axes.",
    ),
    "P03": dict(
        mc=[dict(module="MC_Reshape", cfg="MC_Reshape.cfg", cfg_thorough="MC_Reshape_deep.cfg", emit="HIST")],
        traces=[t("conversions", "machine", "TraceMachine", "P03", input="MC_Reshape", sample=2, sample_thorough=6)],
        note="Random sessions of views and conversions over strided, reversed, gapped and broadcast sources in both orders; every result's cells or content, sharing and layout are judged. A request that forbids copying must succeed exactly when the spec finds strides that realise it.",
    ),
    "P04": dict(
        mc=[dict(module="MC_Bcast", cfg="MC_Bcast.cfg", emit="PAIR"), dict(module="MC_Bcast", cfg="MC_Bcast3.cfg")],
        traces=[t("broadcast", "elem", "TraceElem", "P04", input="MC_Bcast", sample=8, independent=True)],
        note="The rule itself is checked over all pairs of shapes of rank <= 3 and lengths 0..3 and all triples with lengths 0..2 (order independence, mirror symmetry, which element is read); all those pairs (a sample in quick mode) are replayed in both orders on operators, explicit broadcasting and shape broadcasting, with random layouts, followed by random calls.",
    ),
    "P05": dict(
        mc=[dict(module="MC_Loop", cfg="MC_Loop.cfg", cfg_thorough="MC_Loop_deep.cfg"), dict(module="MC_Loop", cfg="MC_LoopBad.cfg", refutes="SameVisits")],
        traces=[t("elementwise", "elem", "TraceElem", "P05", independent=True)],
        note="Random operands of every layout (strided, reversed, gapped, broadcast), every ownership form of every operator, comparison and user-mapped function, i32 on the serial device and f64 on the threaded device, each result judged element by element against the scalar meaning. Transcendental scalar functions are uninterpreted (tables); i32 arithmetic stays within small values.",
    ),
    "P06": dict(
        mc=[dict(module="MC_Write", cfg="MC_Write.cfg", cfg_thorough="MC_Write_deep.cfg", emit="HIST")],
        traces=[t("writes", "machine", "TraceMachine", "P06", input="MC_Write", sample=24, sample_thorough=4)],
        note="Random sessions of writes through views, owned and shared tensors; the complete contents of every buffer after each write are compared with the specification.",
    ),
    "P07": dict(
        mc=[ITER_MC],
        traces=[t("elements", "iter", "TraceIter", "P07", input="MC_Iter", sample=4)],
        note="All schedules of three steps (front, back, skipping, splitting) over sequences of 0..6 elements are generated by TLC and replayed (a quarter of them in quick mode) on randomly chosen iterator kinds and layouts, then random longer schedules; every delivered reference is identified by its address. Layout-chosen orders are checked as permutations.",
    ),
    "P08": dict(
        mc=[ITER_MC],
        traces=[t("axes", "iter", "TraceIter", "P08", input="MC_Iter", sample=4)],
        note="As P07, for the four kinds of axis iterators, with axis lists in any order and of any sign; every delivered sub-tensor is identified by its shape and cell addresses, and the mutable forms by the cells they change.",
    ),
    "P09": dict(
        mc=[FOLD_MC],
        traces=[t("reductions", "red", "TraceRed", "P09", independent=True)],
        note="All schedules (cuts, interleavings, combinations) of the parallel reduction of sequences up to length 5 are model-checked; recorded calls of every reduction on random layouts, axis lists, element types and 1..8 threads, below and above the parallel and contiguity thresholds, are judged; the library's kernels are also run with accumulators that record which cells went into them (each exactly as often as the layout reads it). Fractional results are compared to 1/100 or 1/1000.",
    ),
    "P10": dict(
        mc=[FOLD_MC],
        traces=[t("argreductions", "red", "TraceRed", "P10", independent=True)],
        note="As P09, for arg-minimum and arg-maximum, flat and unraveled, over values with many ties.",
    ),
    "P11": dict(
        mc=[dict(module="MC_MatMul", cfg="MC_MatMul.cfg", cfg_thorough="MC_MatMul_deep.cfg", emit="REQ"), dict(module="MC_MatMul", cfg="MC_Block.cfg", cfg_thorough="MC_Block_deep.cfg"),
            dict(module="MC_MatMul", cfg="MC_BlockBad.cfg", refutes="Tiled")],
        traces=[t("products", "mm", "TraceMM", input="MC_MatMul", sample=4, independent=True)],
        note="Recorded calls of matmul and vecdot (all operand forms, with and without output tensors, alpha/beta, mixed element types, complex numbers, 0-d to 4-d, batched, broadcast, non-contiguous and zero-size operands, 1..8 threads) are judged against the sum-of-products given by the specification; results that name a fractional part are compared on integer-valued data, so exactly.",
    ),
    "P12": dict(
        mc=[dict(module="MC_Join", cfg="MC_Join_join.cfg", cfg_thorough="MC_Join_join_deep.cfg", emit="REQ")],
        traces=[t("joins", "join", "TraceJoin", "P12", input="MC_Join", sample=3, independent=True)],
        note="Recorded calls of concat, stack, hstack, vstack, unstack, meshgrid, diag and atleast_*: 0 to 6 inputs of any layout, every container form, axes of any sign, mismatching shapes, ranks and devices, elements that own memory (each dropped exactly once), and results above the threading threshold; every element of the result is judged by the place it comes from.",
    ),
    "P13": dict(
        mc=[dict(module="MC_Join", cfg="MC_Join_sel.cfg", cfg_thorough="MC_Join_sel_deep.cfg", emit="REQ")],
        traces=[t("selections", "join", "TraceJoin", "P13", input="MC_Join", sample=4, independent=True)],
        note="Recorded calls of index_select, take and bool_select: index lists and masks of any length, sign and integer type, on sources of any layout, serial and threaded, in and out of range; a mask shorter or longer than the axis may be refused or read as false where it ends.",
    ),
    "P14": dict(
        mc=[PAR_MC, FOLD_MC],
        traces=[
            t("loops", "par", "TracePar", independent=True),
            t("reductions", "red", "TraceRed", "P14", independent=True),
            t("products", "mm", "TraceMM", "P14", independent=True),
        ],
        note="All interleavings of two workers over a divided loop are model-checked (every destination cell is written once and with the right value exactly when the ranges are disjoint and cover all places), and all schedules of parallel folds. The library's loops run on elements that know their source cell and count how often they are written and read, at sizes around every switch-over threshold, on 1..8 threads, called from a plain thread, inside the global pool, inside other pools, beside busy workers and beside busy threads; reductions and products are judged in the same circumstances.",
    ),
    "P15": dict(
        mc=[dict(module="MC_Own", cfg="MC_Own.cfg", cfg_thorough="MC_Own_deep.cfg", emit="CHAIN")],
        traces=[t("ownership", "own", "TraceOwn", input="MC_Own", sample=4)],
        note="Exhaustive over all sequences of three ownership steps from four initial situations (a sample of them replayed in quick mode, all in thorough runs), plus long random histories; after every step the snapshot of every live handle and buffer is judged.",
    ),
    "P17": dict(
        mc=[dict(module="MC_Create", cfg="MC_Create.cfg", cfg_thorough="MC_Create_deep.cfg")],
        traces=[t("creations", "create", "TraceNew", independent=True)],
        note="The definitions (ranges, even spacing, identities, layouts of new tensors) are model-checked over all small parameters. Recorded calls of arange, linspace, eye, zeros/ones/full/empty (with shape, order, explicit layout, without device), their like-forms and asarray in every form (vectors, slices, mutable borrows written through, tensors in every order) over 11 element types are judged: content, shape, exact or permitted strides, room in the storage, identity of borrowed memory, refusal of data that is too short.",
    ),
    "P18": dict(
        mc=[TRI_MC],
        traces=[t("triangles", "tri", "TraceTri", independent=True)],
        note="Packing order, unpacking under the five symmetries and the triangle predicate are model-checked for all sizes up to 4x4 (round trips, every packed element used exactly once, mirror of the column-major form); recorded calls of tril, triu, pack_tri and unpack_tri in every ownership form, on batches of any layout, of real and complex elements, serial and threaded, are judged element by element, with the fresh memory poisoned so that unwritten elements show.",
    ),
    "P16": dict(
        mc=[dict(module="MC_Refusal", cfg="MC_Refusal.cfg", cfg_thorough="MC_Refusal_deep.cfg")],
        traces=[t("refusals", "refuse", "TraceRefusal", independent=True)],
        note="The specification gives every request a verdict: answered (with which arrays), refused, or left open. Model-checked over all requests about views with numbers of every size: answers are well formed and invent nothing, refusals change nothing, axes counted from either end mean the same, and numbers beyond the sizes may be clamped (which the recorded numbers are). Recorded: forty-five operations, each in its fallible and its infallible form, on serial and threaded devices of both orders, with axes as lists, tuples, arrays, slices, single numbers and None in six integer types, numbers around and far beyond the valid ranges up to the extremes of the integer types, zero-sized operands, operands of other devices; judged are the verdict, the answer, that the fallible form never panics, that both forms agree, and that the operands keep every bit.",
    ),
    "P19": dict(
        mc=[dict(module="MC_Mirror", cfg="MC_Mirror.cfg", cfg_thorough="MC_Mirror_deep.cfg")],
        traces=[t("twins", "mirror", "TraceMirror", independent=True)],
        note="For every request the specification defines the mirrored request (arguments, order of operands, order of results); that meaning and mirror commute is model-checked over all requests with small arguments on small arrays in sequences. Recorded programs of up to twelve steps, over fifty operations, run side by side on a row-major device and mirrored on a column-major one, with operands of the same memory or of another layout, serial and threaded; results of both are operands of later steps; every pair of results is judged, as is the convention their devices carry, and that operands of different conventions are refused. Requests whose order the documentation fixes are restricted to ranks where it does not matter (matrix_transpose, tril/triu, diagonal) or left out (atleast_nd, hstack, vstack, flat arg-reductions).",
    ),
    "P21": dict(
        mc=[dict(module="MC_Dist", cfg="MC_Dist.cfg", cfg_thorough="MC_Dist_deep.cfg")],
        traces=[t("distances", "dist", "TraceDist", independent=True, features="sci")],
        note="Seventeen metrics are defined over rows of whole numbers as exact ratios (powers for the metrics with roots, a table of logarithms for Jensen-Shannon); symmetry, identity, bounds, meaning of weights (a weight counts a column that many times) and the filling of the table of pairs block by block in any order are model-checked. Recorded calls over all layouts (strided, reversed, broadcast, offset), both orders, f64/f32/bool/i32, static and dynamic rank, weights, serial and threaded inside and outside pools, sizes across the block borders, and mismatched widths, weights, ranks and devices are judged. Undefined distances (0/0) are not judged; one part in 2^13 (2^10 for cosine and correlation, 2^6 in f32) of the value is resolved.",
    ),
    "P20": dict(
        mc=[dict(module="MC_Linalg", cfg="MC_Linalg.cfg", cfg_thorough="MC_Linalg_deep.cfg")],
        traces=[t("linear_algebra", "linalg", "TraceLA", independent=True, features="blas"), t("linear_algebra_single", "linalgs", "TraceLA", independent=True, features="blas"), t("linear_algebra_faer", "linalgf", "TraceLA", independent=True, features="blas")],
        note="Determinant, adjugate, rank, definiteness, traces of powers and the matrices that triangle/Hermitian routines see are defined over Gaussian integers and model-checked against fraction-free elimination with any choice of pivots, Gram matrices, quadratic forms and Newton's identities; the flag rewritings by which row-major calls become column-major ones (transposition, conjugation, exchanged operands, flipped sides and triangles) are model-checked to stand for the same product or system in any sequence. Recorded calls on OpenBLAS and faer, f64/f32/c64/c32, both default orders, all operand forms (reference, view, owned, mutable), random layouts (strided, reversed, offset, broadcast, F/C), triangles, Hermitian or symmetric, generalised problems of all three types, every LAPACK driver choice, full/thin SVD, level-3 builders with all flags, alpha/beta, optional outputs holding NaN, empty, non-square, mismatched and foreign operands are judged by the defining equations in scaled integers; operands that are only read keep every bit and gaps of overwritten ones are untouched. Matrices are at most 4x4; accuracy itself is not judged.",
    ),
    "P25": dict(
        mc=[dict(module="MC_Sphere", cfg="MC_Sphere.cfg", cfg_thorough="MC_Sphere_deep.cfg")],
        traces=[t("quadrature", "leb", "TraceSph", independent=True, features="sci")],
        note="The means of monomials over the sphere are a rational recursion, computed to fourteen decimals in whole-number limbs and checked against x^2+y^2+z^2 = 1, symmetry and the closed formula; orbits of the octahedral group are model-checked. All 32 rules are generated through every entry point and on four devices: shape, points distinct, on the sphere and closed under the octahedral group with equal weights, moments of all low and many high degrees, and Legendre sums of every degree up to the order along sixteen directions, to 1e-12. Both tables between order and size are compared for every order and size and the numbers around them.",
    ),
    "P24": dict(
        mc=[dict(module="MC_Layout", cfg="MC_Layout.cfg", cfg_thorough="MC_Layout_deep2.cfg", emit="LAY"),
            dict(module="MC_Layout", cfg="MC_Layout3.cfg", cfg_thorough="MC_Layout_deep.cfg", emit="LAY")],
        traces=[t("admission", "lay", "TraceLay", input="MC_Layout", sample=2, independent=True), t("layouts", "lay", "TraceLay", independent=True)],
        note="Every layout of ranks 0..3 over small lengths, strides and offsets, admissible or not: the documented stride rule implies that no two positions share an element, bounds are tight, views never leave the admissible layouts, predicates by meaning equal predicates by walking. All of them (half in quick mode) are offered to the library, whose verdict and predicates are judged; then random layouts of higher rank: tensors over storages of every length, index/unravel, reordering for traversal in every iteration order (jointly for one to three operands, with contiguous blocks), output layouts of binary operations and copies, reshaping of layouts, equality.",
    ),
    "P23": dict(
        mc=[dict(module="MC_Conv", cfg="MC_Conv.cfg", cfg_thorough="MC_Conv_deep.cfg")],
        traces=[t("conversions", "conv", "TraceConv", independent=True, features="conv")],
        note="Casts, rounding, saturation, wrap-around and promotion are defined on exact binary numbers; in a world of small types all values of all types are checked: results stay in the type, wrap modulo its size, are nearest, promotion is commutative, idempotent, least and reversible, journeys of views and copies across devices leave the source alone, and packing is the inverse of unpacking. Recorded on the library: every supported cast and promotion of 15 element types with extreme values, assignments and fills between types over random layouts, mixed-type operations, moves between the serial, faer and OpenBLAS devices in all directions, modes and ownership forms (followed by use and writes), vectors and scalars, packed arrays, and faer matrices with reversed, transposed and partial views. Negative zero is not told apart from zero; half-precision types are not enabled.",
    ),
}

NOT_APPLICABLE = {
    "P22": "Numeric accuracy: TLA+ has no floating point, and the guide names numeric accuracy as outside this technique.",
}
