"""Per-property metadata: used by check.py (decision) and mkmanifest.py (properties.jsonl, MANIFEST.json)."""
VG = 'The value of every observable result is computed from MIR as a gated value-graph term valid for all inputs and compared, by rewriting to normal form, with the term the property prescribes.'
TECH = 'static value-graph abstract interpretation over MIR (gated SSA, loop recurrences) with normal-form comparison'
PROPS = {
 'P01': dict(module='p01', level='proof', floor=216, rule=VG + ' Obligations: result values, shape, stride and no-panic for each operator impl on arrays.',
   technique=TECH,
   level_note='All inputs; assumes the traversal and broadcast contracts decided by P04/P05, operand buffers do not alias the fresh result.',
   assume=['contracts of the traversal order (P05), broadcasting (P04), row-major stride (P08)', 'integer arithmetic on indices does not overflow'],
   title='Elementwise arithmetic is exact at every broadcast position',
   statement='For any two arrays of broadcast-compatible shapes and any memory layout (contiguous, strided, transposed, broadcast views), each binary operator (+, -, *, /, %, &, |, <<, >>) returns an array of the broadcast shape whose element at every index is that operator applied, in operand order, to the operands\' elements at that index; with a scalar right operand, to the element and the scalar; unary minus returns an array of the same shape with every element negated. Owned and borrowed operand forms give the same result, and broadcast-compatible operands never panic.',
   over=['inputs', 'configurations'], quant='all element types, shapes, strides and owned/borrowed/scalar operand forms',
   why='Kernel selection depends on the collapsed strides of both operands; the tests sample a few shapes per operator and only some owned/borrowed forms.',
   files=['src/ndarray/binary_ops.rs', 'src/ops/binary_ops.rs', 'src/ops/binary_op_add.rs', 'src/ops/binary_op_sub.rs', 'src/ops/binary_op_mul.rs', 'src/ops/binary_op_div.rs'],
   mech=[('operator impls', 'src/ndarray/binary_ops.rs'), ('kernel dispatch by stride', 'src/ops/binary_ops.rs define_binary_op_trait!')]),
 'P04': dict(module='p04', level='proof', floor=27, rule=VG + ' Obligations: result and accept condition of shape broadcasting, stride broadcasting, repeated-axis computation and the broadcast view.',
   technique=TECH, level_note='All inputs (any rank, any axis length).',
   assume=['integer arithmetic on indices does not overflow'],
   title='Broadcasting follows the right-aligned rule and rejects everything else',
   statement='Two shapes broadcast exactly when, aligned at the right with missing axes taken as length 1, every pair of axis lengths is equal or has a 1, and the result length is the other one of the pair; any other pair of shapes is rejected with a panic. A broadcast view shares the source\'s data, has exactly the requested shape, repeats the source along every axis of source length 1 or that was added, keeps the source\x27s element order along all others, and is read-only. The axes summed when undoing a broadcast are exactly the added axes and those stretched from length 1.',
   over=['inputs'], quant='all pairs of shapes of any rank, including rank 0 and axes of length 1',
   why='Tests list about a dozen shape pairs; the rule quantifies over all ranks and lengths.',
   files=['src/ndarray/broadcast.rs'], mech=[('broadcast shape/stride computation', 'src/ndarray/broadcast.rs')]),
 'P02': dict(module='p02', level='proof', floor=141, rule=VG + ' Obligations: memory after every compound-assignment impl, fill and zero, per layout; accepted operands; no other memory written.',
   technique=TECH, level_note='All inputs; an array without overlapping elements (every writeable array).',
   assume=['contracts of the traversal order (P05), broadcasting (P04); Contiguous flag coherent with the strides (P08)', 'integer arithmetic on indices does not overflow'],
   title='In-place operators and fill update exactly the elements of the array',
   statement='For any writeable array of any layout (contiguous, strided slice, transposed view), a compound assignment (+=, -=, *=, /=, %=, &=, |=, <<=, >>=) with a scalar or with an array broadcastable to its shape replaces every element of the array by the operator applied to its old value and the corresponding (broadcast) right-hand element; fill stores the given value and zero stores zero in every element. No other memory is written: elements of the underlying buffer outside the view and the right-hand operand keep their values. A read-only array or a right-hand side that does not broadcast to the shape of the array panics.',
   over=['inputs', 'configurations'], quant='all element types, shapes, strides, layouts and operand forms',
   why='Tests exercise in-place operators on contiguous arrays and a few slices; the guarantee covers every stride pattern.',
   files=['src/ndarray/assign_ops.rs', 'src/ndarray/fill.rs', 'src/ops/fill.rs', 'src/ops/binary_ops.rs'],
   mech=[('compound assignment', 'src/ndarray/assign_ops.rs'), ('recursive fill', 'src/ops/fill.rs')]),
 'P03': dict(module='p03', level='proof', floor=118, rule=VG + ' Obligations: value, shape, accepted axes of sum, product, min, max, min/max magnitude and mean, whole-array and along axes, for the generic kernel and each specialised element type.',
   technique=TECH, level_note='All inputs with at least one element and without NaN or infinite elements; the order of combination is free.',
   assume=['contract of the traversal order (P05)', 'elements are totally ordered (no NaN) and within the finite range of their type', 'integer arithmetic on indices does not overflow'],
   title='Reductions combine every element exactly once, along exactly the given axes',
   statement='For any array of any layout with at least one element (no NaN or infinities), sum, product, min, max, min_magnitude, max_magnitude and mean return a zero-dimensional array holding the combination of all elements of the array, each used exactly once. The *_along forms remove exactly the given axes from the shape (keeping the others in order) and hold, at each remaining index, the combination of exactly the elements that share that index; mean_along divides by the number of elements combined (it takes non-negative axes). Negative axes count from the end; repeated or out-of-range axes panic. Magnitudes are absolute values for every signed and floating-point type.',
   over=['inputs', 'configurations'], quant='all element types, shapes, strides and sets of axes',
   why='Fast paths for contiguous and uniformly strided data and the mapping of elements to result positions depend on the layout and the axes; tests sample a few.',
   files=['src/ndarray/reduce.rs', 'src/ops/reduce_sum.rs', 'src/ops/reduce_product.rs', 'src/ops/reduce_min.rs', 'src/ops/reduce_max.rs', 'src/ops/reduce_min_magnitude.rs', 'src/ops/reduce_max_magnitude.rs'],
   mech=[('reduction kernels', 'src/ops/reduce_*.rs'), ('axis reduction', 'src/ndarray/reduce.rs reduce_along')]),
 'P05': dict(module='p05', level='proof', floor=18, rule=VG + ' Obligations: collapsing axes keeps the offset sequence; each generator and iterator starts at the first element, steps like a row-major odometer and ends after the last element.',
   technique=TECH + '; inductive step comparison for iterators',
   level_note='All shapes and strides up to the 32 dimensions the generators support.',
   assume=['an odometer that starts at zero and advances the last axis that can advance, resetting the later ones, enumerates indices in row-major order', 'integer arithmetic on indices does not overflow'],
   title='Iteration visits each element once, in row-major order, whatever the layout',
   statement='For any array of any shape and stride, flatiter yields every element exactly once, in row-major index order, and flatiter_ptr yields their addresses in the same order; the index generators behind them yield the memory offset of the k-th element in row-major order, for one array or several arrays in step, after adjacent axes were merged or not. iter, iter_along and nditer yield one view per index of the chosen axes, in row-major order of those axes, each with the remaining axes (in order, with their strides) and starting at the element with that index; nditer panics for repeated or out-of-range axes.',
   over=['inputs', 'histories'], quant='all shapes, strides, and iteration lengths',
   why='Carry behaviour appears only for particular combinations of axis lengths and strides; tests cover a few shapes.',
   files=['src/ndarray/iterator/flat_index_generator.rs', 'src/ndarray/iterator/collapse_contiguous.rs', 'src/ndarray/iterator/tensor_iterator.rs'],
   mech=[('odometer', 'src/ndarray/iterator/flat_index_generator.rs'), ('axis merging', 'src/ndarray/iterator/collapse_contiguous.rs')]),
 'P06': dict(module='p06', level='proof', floor=90, rule=VG + ' Obligations: shape, stride, first element, accept condition and flags of slice_along and slice for each index kind; element addressed and accept condition of [] for each index kind.',
   technique=TECH, level_note='All shapes, strides, axes and indices; empty or reversed ranges are outside the property.',
   assume=['integer arithmetic on indices does not overflow', 'shape and stride of an array have equal length (P08)'],
   title='Slicing and indexing select exactly the requested elements, in bounds',
   statement='For any array of any layout: slicing along axes with an index, a non-empty range, an open or inclusive range or the full range yields a view of the same buffer whose shape has exactly the requested lengths (an integer index removes its axis, axes not mentioned stay whole), whose element at each index is the element of the source at the corresponding offset index, and which does not own the buffer. array[[i, j, ..]] denotes the element at exactly those indices. A slice or index that reaches outside an axis, names a missing axis, or has too many (for []: too few) components is rejected with a panic and never reads outside the array.',
   over=['inputs'], quant='all shapes, strides, axes, index kinds and index values',
   why='Bounds hold for every axis and every index value; tests try a handful of in-range indices.',
   files=['src/ndarray/slice.rs', 'src/ndarray/index_impl.rs', 'src/util/index.rs', 'src/util/axis.rs'],
   mech=[('slice views', 'src/ndarray/slice.rs'), ('index arithmetic', 'src/ndarray/index_impl.rs')]),
 'P07': dict(module='p07', level='proof', floor=74, rule=VG + ' Obligations: shape, accept condition and k-th element (in row-major order) of view, reshape, squeeze, unsqueeze, T, transpose for owned and borrowed arrays and tensors, and of flatten.',
   technique=TECH, level_note='All shapes, strides and axes; for tensors also whether or not the buffer is shared.',
   assume=['contracts of the traversal order (P05), row-major strides and flags (P08), clone (P19)', 'integer arithmetic on indices does not overflow', 'shape and stride of an array have equal length (P08)'],
   title='Reshape, transpose, squeeze and views never lose or reorder elements',
   statement='For arrays and tensors of any layout, consumed or borrowed, whether or not a tensor\'s buffer is shared: view keeps shape and elements; reshape to any shape with the same number of elements keeps the row-major element order (and rejects a different number of elements, or a new shape for an array that is not uniformly strided); squeeze removes exactly the axes of length 1; unsqueeze adds one axis of length 1 at the given (possibly negative) position; transpose exchanges exactly the two given axes, so element [..i..j..] of the result is element [..j..i..] of the source; T is transpose(0, 1); out-of-range axes are rejected. flatten copies the elements in row-major order into one axis.',
   over=['inputs', 'configurations', 'histories'], quant='all shapes, strides, axes, owned/borrowed receivers, shared or unshared tensor buffers',
   why='Each operation is compositional over arbitrary strides and sharing; tests use contiguous, unshared receivers.',
   files=['src/common/reshape.rs', 'src/ndarray/reshape.rs', 'src/tensor/reshape.rs', 'src/tensor/methods.rs'],
   mech=[('provided geometry methods', 'src/common/reshape.rs'), ('views of arrays', 'src/ndarray/reshape.rs'), ('views of tensors', 'src/tensor/reshape.rs')]),
 'P08': dict(module='p08', level='proof', floor=86, rule=VG + ' Obligations: row-major strides; uniform-stride detection; flags of every function that builds an array value against its shape and stride; every layout query on arrays and tensors.',
   technique=TECH, level_note='All shapes and strides; the flags are an inductive invariant over every function that builds an array.',
   assume=['axis merging contract (P05)', 'integer arithmetic on indices does not overflow'],
   title='Layout metadata always describes the memory it goes with',
   statement='After any operation, the stride and flags of an array agree with its memory: newly allocated arrays have row-major strides; is_contiguous holds only if the k-th element (row-major) lies k elements after the first, and holds for every non-broadcast array whose elements are adjacent in order; is_uniformly_strided holds exactly when all axes merge into a single step, and has_uniform_stride then returns that step; ndims, len, size, is_view, shape and stride report the array\'s own geometry, for arrays and tensors, owned or borrowed; value returns the element of a one-element array only; data_slice is given for contiguous arrays only.',
   over=['inputs', 'histories'], quant='all shapes, strides and sequences of view operations',
   why='Kernels choose raw memory loops from these flags; a wrong flag on one stride pattern corrupts results silently.',
   files=['src/common/methods.rs', 'src/ndarray/methods.rs', 'src/ndarray/slice.rs', 'src/ndarray/constructors.rs', 'src/ndarray/iterator/collapse_contiguous.rs', 'src/tensor/methods.rs'],
   mech=[('contiguity flags', 'src/ndarray/slice.rs update_flags_with_contiguity'), ('uniform stride', 'src/ndarray/iterator/collapse_contiguous.rs has_uniform_stride')]),
 'P17': dict(module='p17', level='proof', floor=396, rule=VG + ' Obligations: accepted arguments, shape, length and k-th element of each constructor for arrays and tensors per element type; nested data by induction over the nesting depth; list-like arguments.',
   technique=TECH + '; structural induction over nested data',
   level_note='All arguments; for 64-bit integers arange is decided up to 2^53; floating-point expressions are compared exactly as written (up to commutation).',
   assume=['numeric conversions succeed (a failing one panics)', 'integer arithmetic does not overflow', '[T]::concat, Vec::from and iterator adaptors behave as documented'],
   title='Constructors build exactly the described shape and values',
   statement='new accepts exactly non-empty rectangular nested data (vectors, arrays, or arrays of vectors, at every nesting depth) and yields the nesting\'s shape with the items in order; ragged or empty data panics and never yields an array that reads outside its buffer. full, zeros, ones and scalar yield the requested shape (rejecting a zero-sized one) with every element the given value, zero or one. arange and arange_with_step yield ceil((stop - start) / step) elements start + i * step; linspace yields exactly num elements start + i * (stop - start) / (num - 1) and linspace_exclusive start + i * (stop - start) / num (one element start if num is 1), rejecting num = 0. Tensors get the same values as arrays, and a shape may be given as a vector, slice, array or range alike.',
   over=['inputs', 'configurations'], quant='all element types, shapes, argument values and nesting depths',
   why='Tests build a few small arrays; raggedness at an inner level, mixed vector/array nesting and large bounds are not sampled.',
   files=['src/common/constructors.rs', 'src/util/flatten.rs', 'src/util/shape.rs', 'src/util/homogenous.rs', 'src/util/to_vec.rs', 'src/ndarray/constructors.rs', 'src/tensor/constructors.rs'],
   mech=[('provided constructors', 'src/common/constructors.rs'), ('nested data', 'src/util/{flatten,shape,homogenous}.rs')]),
 'P18': dict(module='p18', level='proof', floor=144, rule='Each sampled element is abstracted to a symbolic interval with open or closed ends (interval dataflow over the value graph); it must lie inside the stated range. Shape, length, accepted arguments and one sampling call per element are obligations too.',
   technique='static interval dataflow over the MIR value graph; call-site-in-loop analysis for draws',
   level_note='All shapes and bounds (64-bit integers up to 2^53; whole-number bounds for randint on floats); relies on the documented ranges of rand\'s distributions.',
   assume=['rand: Uniform::new(a, b) samples a value in [a, b), Normal::new(0, 1) a standard normal value', 'numeric conversions succeed'],
   trusted=['rand, rand_distr'],
   title='Random constructors stay inside their stated range, one draw per element',
   statement='For every shape: rand yields elements in [0, 1), uniform elements in [low, high), randint whole numbers in [low, high) (never high itself, also for negative bounds and for the bounds of every 8- to 32-bit integer type), randn standard-normal elements; each element is a separate draw, the result has exactly the requested shape, and valid arguments never panic.',
   over=['inputs', 'configurations'], quant='all random draws, shapes, bounds and element types',
   why='Boundary draws have tiny probability; no test run is expected to hit them.',
   files=['src/common/random.rs', 'src/util/dtype.rs'], mech=[('sampling', 'src/common/random.rs'), ('float type wide enough for the bounds', 'src/util/dtype.rs AsFloatType')]),
 'P19': dict(module='p19', level='proof', floor=50, rule=VG + ' Obligations: value of each equality impl; shape, elements and storage of each copy; conversions; element access.',
   technique=TECH, level_note='All shapes and strides.',
   assume=['contract of the traversal order (P05), Contiguous flag coherent with the geometry (P08)', 'numeric conversions succeed (a failing one panics)'],
   title='Equality, copies and conversions see the logical elements, not the memory',
   statement='Two arrays or tensors (in any mix of owned, borrowed, array and tensor) are equal exactly if their shapes are equal and their elements are equal at every index, whatever their strides or buffers. clone, detach, get_ndarray and into_ndarray yield the same shape and the same elements at every index; clone and detach have storage of their own. astype yields the same shape with every element converted numerically. value returns the single element of a one-element array and rejects others; data_slice is exactly the elements in order and is only given for contiguous arrays.',
   over=['inputs', 'configurations'], quant='all shapes, strides, layouts, operand forms and element types',
   why='Copies take block-wise fast paths chosen by stride; tests compare contiguous arrays and a few slices.',
   files=['src/ndarray/equals.rs', 'src/tensor/equals.rs', 'src/ndarray/clone.rs', 'src/ndarray/astype.rs', 'src/tensor/methods.rs', 'src/tensor/autograd.rs', 'src/ndarray/methods.rs'],
   mech=[('block copy', 'src/ndarray/clone.rs clone_data_non_contiguous'), ('equality', 'src/ndarray/equals.rs')]),
 'P20': dict(module='p20', level='proof', floor=31, rule=VG + ' Obligations: accepted values and result of axis normalisation per axis type; accepted arguments, shape, stride and first element of each diagonal view; traces as the sum over the diagonal.',
   technique=TECH, level_note='All shapes, strides, axes and offsets.',
   assume=['integer arithmetic on indices does not overflow', 'shape and stride of an array have equal length (P08)', 'sum_along (P03)'],
   title='Axes are normalised uniformly; diagonals and traces take the right elements',
   statement='An axis a of an array with n dimensions is accepted exactly for -n <= a < n and denotes axis a (a >= 0) or n + a. diagonal, offset_diagonal, diagonal_along and offset_diagonal_along take two different axes of an array with at least two and yield a view with the other axes in order followed by the diagonal: its i-th element has index (i, i + offset) (offset >= 0) or (i - offset, i) on the two axes, and it is as long as both axes allow; an offset outside the axis is rejected. trace and its variants are the sum over that last axis.',
   over=['inputs'], quant='all ranks, shapes, strides, axes and offsets',
   why='Tests try two or three offsets on contiguous arrays.',
   files=['src/util/axis.rs', 'src/linalg/matrix_ops.rs'], mech=[('axis normalisation', 'src/util/axis.rs as_absolute'), ('diagonal view', 'src/linalg/matrix_ops.rs offset_diagonal_along')]),
 'P12': dict(module='p12', level='proof', floor=122, rule='The gradient function each tensor operation records is built symbolically from the MIR of the operation; its backward method is interpreted at array level (array operations as symbols, calls of backward as events), and the gradient handed to each operand is compared, in the normal form of the ring of arrays, with the exact vector-Jacobian product summed back to the operand\'s shape.',
   technique='static event/value-graph analysis over MIR at array level (array algebra normal forms, typestate of gradient events)',
   level_note='All operand shapes, broadcasts and layouts; equality in exact arithmetic (rounding is outside the property).',
   assume=['array operations behave as decided by P01, P03, P04, P07 and P15', 'every gradient function adds up what it receives (linearity; leaves decided by P14)', 'elements form a field (exact arithmetic)'],
   title='Gradients are exact: every recorded operation passes on the chain-rule product',
   statement='For every tensor operation (+, -, *, /, unary -, with tensor or scalar right operand and owned or borrowed operands; dot, matmul of 1D/2D operands, bmm; view, reshape, squeeze, unsqueeze, transpose, T), for all operand shapes the operation accepts (including broadcasting) and any incoming gradient of the result\'s shape and any memory layout, the backward pass hands each operand that requires gradients exactly the incoming gradient times the partial derivative of the operation with respect to that operand, summed over the axes along which the operand was broadcast and of exactly the operand\'s shape (in exact arithmetic), whether or not the other operand requires gradients, and it does not panic. Hence the gradient of any expression of these operations is the sum over all paths of the chain-rule products.',
   over=['inputs', 'histories', 'configurations'], quant='all operations, operand forms, shapes, broadcasts, layouts, sets of operands requiring gradients, and computation graphs',
   why='Tests compare a few expressions numerically; wrong branches for particular broadcasts or for a subset of operands requiring gradients stay unseen.',
   files=['src/autograd', 'src/tensor/ops.rs', 'src/tensor/matrix_ops.rs', 'src/tensor/reshape.rs'],
   mech=[('gradient functions', 'src/autograd/*_backwards.rs'), ('undoing a broadcast', 'src/autograd/util.rs reduce_gradient'), ('propagation', 'src/autograd/gradient_function.rs call_next_backward!')]),
 'P13': dict(module='p13', level='proof', floor=222, rule=VG + ' Obligations per tensor operation: values (as an array-level term), requires_grad flag, leaf marking, and whether the recorded gradient function ignores gradients.',
   technique='static value-graph analysis over MIR at array level with flag/typestate invariant (requires_grad iff a gradient function is recorded)',
   level_note='All inputs; view/reshape/transpose values are decided by P07.',
   assume=['operands satisfy the invariant themselves (established by construction and set_requires_grad, P14)'],
   title='Tensor operations mirror array operations and track gradients exactly',
   statement='Every tensor operation (arithmetic in all operand forms, negation, dot, matmul, bmm) holds exactly the values of the corresponding array operation on the underlying arrays and accepts whatever that accepts. The result of any tensor operation (also view, reshape, squeeze, unsqueeze, transpose, T) requires gradients exactly if at least one tensor operand does, is a leaf only if it does not, and has a gradient function that takes part in differentiation exactly if it requires gradients. Newly constructed tensors require no gradient, are leaves and have no gradient function; requires_grad and is_leaf report exactly this state.',
   over=['inputs', 'histories', 'configurations'], quant='all operations, operand forms and combinations of requires_grad',
   why='Tests set requires_grad in a few combinations; the propagation rule covers every operand form of every operation.',
   files=['src/tensor/ops.rs', 'src/tensor/matrix_ops.rs', 'src/tensor/reshape.rs', 'src/tensor/constructors.rs', 'src/tensor/autograd.rs'],
   mech=[('recording', 'src/tensor/ops.rs implement_binary_ops!'), ('flags', 'src/tensor/constructors.rs from_raw_parts')]),
 'P14': dict(module='p14', level='proof', floor=27, rule=VG + ' Obligations: state transition of set_requires_grad, AccumulateGrad.backward/gradient/zero_gradient, start of the backward pass.',
   technique='static state-transition analysis over MIR at array level (typestate of leaf gradients, event log of backward calls)',
   level_note='All inputs and states; one step of each transition, hence all histories by induction.',
   assume=['array addition in place and zero behave as decided by P02'],
   title='Gradients accumulate: each backward pass adds, zero_gradient resets',
   statement='A tensor that starts to require gradients gets a zero gradient of its own shape. Each backward pass that reaches a leaf adds the gradient it brings to the leaf\'s gradient and changes nothing else, so after any sequence of passes gradient() is their sum since the last zero_gradient, which resets it to zero; gradient() is None for every tensor that is not such a leaf. set_requires_grad sets exactly the flag it is given, keeps the values, keeps the gradient gathered so far if the setting does not change, and drops it when switched off. backward_with accepts exactly gradients of the tensor\'s shape and hands them, once, to the tensor\'s gradient function; backward does so with a gradient of ones.',
   over=['histories', 'inputs'], quant='all sequences of backward, zero_gradient and set_requires_grad calls, all shapes',
   why='The guarantee is about call histories; tests run one or two passes.',
   files=['src/autograd/accumulate_grad.rs', 'src/autograd/none_backwards.rs', 'src/tensor/autograd.rs'],
   mech=[('accumulation', 'src/autograd/accumulate_grad.rs'), ('state changes', 'src/tensor/autograd.rs set_requires_grad, backward_with')]),
 'P09': dict(module='p09', level='proof', floor=18, rule='Ownership conservation: every function that assembles an array, overwrites its pointer/length/capacity/flags, or rebuilds a Vec from raw parts is found in the MIR of the whole crate; on every path through it each (pointer, length, capacity) token taken in by value must be handed on, freed or returned exactly once, and borrowed tokens are neither freed, returned as owned nor altered.',
   technique='static ownership (linear token) analysis over MIR: forging sites enumerated crate-wide, token flow decided on the value graph with drop events',
   level_note='All inputs and all normal paths; unwinding paths are outside (a leak or double free during a panic is not decided).',
   assume=['safe Rust moves and drops owners exactly once', 'an array taken in satisfies the invariant itself (induction over construction)'],
   title='Every buffer has one owner, which frees it once with its own layout',
   statement='For every history of safe operations, each data buffer is owned by exactly one array at any time (or by the Vec it was built from or turned into) and is deallocated exactly once, when that owner is dropped, with the length, capacity and element type it was allocated with; views (slices, reshaped and transposed views, diagonals, broadcasts, iterator items) never free anything; consuming operations (reshape, view, transpose, squeeze, into_ndarray, casts) hand the buffer on to their result or free it, and never both.',
   over=['histories', 'inputs'], quant='all sequences of construction, view, consume and drop operations',
   why='Double frees, leaks and wrong-capacity frees do not fail assertions; they surface in the allocator, if at all.',
   files=['src/ndarray.rs', 'src/ndarray/reshape.rs', 'src/common/reshape.rs', 'src/tensor/autograd.rs'],
   mech=[('drop', 'src/ndarray.rs impl Drop'), ('buffer adoption', 'from_contiguous_owned_buffer'), ('ownership flag', 'src/ndarray/flags.rs NdArrayFlags::Owned')]),
 'P10': dict(module='p10', level='proof', floor=176, rule='Witness programs: each misuse program (a view, slice, iterator or reference used after its source is dropped, replaced or written through its owner; arrays sent between threads; fields forged; unsafe constructors called without unsafe) must be rejected by the compiler with an error of the stated kind, and its twin without the misuse must be accepted. Arrays a tensor hands out with unlimited lifetime must own their memory (value graph).',
   technique='compile-fail witnesses judged by rustc\'s type and borrow checker (with accepted twins), plus static value-graph ownership obligations',
   level_note='One witness per borrowing API and kind of misuse; the type signature decides all programs of that form. Writes through another view of the same array are by design not excluded.',
   assume=['soundness of rustc\'s borrow checker for the lifetimes the signatures state'], trusted=['rustc type and borrow checker'],
   title='No safe program reaches memory that is gone or being changed by its owner',
   statement='A view, slice, reshaped or transposed array, diagonal, broadcast, iterator, element reference, data slice or gradient obtained from an array or tensor cannot, in safe code, be used after its source is dropped, replaced, or written through its owner, also when passed on through a chain of consuming view operations; programs that use them within the life of the source compile. Results with storage of their own (clone, sums, arithmetic, matmul, astype, detach, get_ndarray, into_ndarray) may outlive their operands and own their memory. Arrays and tensors cannot be shared between or sent to threads, and safe code cannot forge an array (set its fields or adopt a buffer with an arbitrary layout).',
   over=['histories', 'schedules'], quant='all safe programs of the stated forms',
   why='A loosened lifetime compiles and passes every test; only programs that should not exist show it.',
   files=['src/ndarray.rs', 'src/ndarray/reshape.rs', 'src/ndarray/slice.rs', 'src/ndarray/iterator', 'src/tensor', 'src/linalg'],
   mech=[('lifetimes of views', 'src/common/reshape.rs, src/ndarray/slice.rs'), ('iterators', 'src/ndarray/iterator/*.rs'), ('tensor arrays', 'src/tensor/methods.rs get_ndarray, into_ndarray')]),
 'P15': dict(module='p15', level='proof', floor=13, rule=VG + ' Obligations: acceptance condition, shape and element values of dot, matmul and bmm; sums are compared in exact arithmetic (normal form of sums of products, independent of loop order).',
   technique='static value-graph equivalence over MIR, sums of products in a normal form of ring expressions with binders',
   level_note='All lengths, strides and layouts; the einsum step inside matrix-matrix products is used by its contract, decided by P16. Rounding is outside (exact arithmetic).',
   assume=['elements form a commutative ring (rounding and overflow outside)', 'operands of rank 1 to 3 satisfy the array invariants (P09)'],
   title='dot, matmul and bmm compute the exact mathematical product for any layout',
   statement='dot accepts exactly two 1D arrays of equal length and returns the sum of the products of their elements; matmul accepts exactly 1D with 1D of equal length (dot), 2D with 1D and 2D with 2D whose inner dimensions agree, and returns at each position the sum over the inner index of the products; bmm accepts exactly 3D operands with equal batch and inner dimensions and multiplies batch by batch. This holds for every size and for every memory layout of the operands (transposed, sliced, broadcast, reversed roles), the result has the shape of the mathematical product and fresh zero-initialised storage, and incompatible operands panic before anything is computed.',
   over=['inputs', 'configurations'], quant='all sizes, strides and layouts of the operands',
   why='Tests multiply a few small matrices; sizes and stride patterns select different code paths.',
   files=['src/linalg/matrix_ops.rs', 'src/ops/dot_product.rs', 'src/linalg/einsum.rs'],
   mech=[('products', 'src/linalg/matrix_ops.rs dot, matmul, bmm, MatrixOps'), ('dot product', 'src/ops/dot_product.rs')]),
 'P16': dict(module='p16', level='proof', floor=94, rule=VG + ' Obligations: the kernel that dispatch picks for given strides performs the sum of products with exactly those strides; every einsum loop adds each product exactly once for any shape and strides, writes only the output, and a loop that reports not having run has changed nothing.',
   technique='static value-graph equivalence over MIR: dispatch and kernels composed symbolically in strides and counts, scatter-add normal form for loop nests',
   level_note='All strides, counts and shapes; kernels for 1 to 4 operands, loops for 1 to 4 operands, any number of dimensions. Rounding is outside (exact arithmetic).',
   assume=['elements form a commutative ring (rounding and overflow outside)', 'the index generator visits every index once (P05)', 'the output does not overlap the operands'],
   title='Einsum kernels and loops add each product exactly once, whatever the strides',
   statement='Whatever strides the operands and the output have, the sum-of-products kernel chosen for them adds to each output element exactly the products of the operand elements that belong to it, each once, for every count; the specialised einsum loops and the general loop do the same over the whole iteration space for any number of dimensions and operands and touch no other memory; a specialised loop either does the complete computation and says so, or does nothing and says so.',
   over=['inputs', 'configurations'], quant='all strides, counts, shapes and operand numbers',
   why='Kernel choice depends on stride patterns (0, 1, other per operand); tests reach only some of the combinations with small counts.',
   files=['src/linalg/einsum.rs', 'src/linalg/specialized_einsum.rs', 'src/linalg/sum_of_products.rs', 'src/ops/dot_product.rs'],
   mech=[('kernel dispatch', 'src/linalg/sum_of_products.rs get_sum_of_products_function*'), ('loops', 'src/linalg/specialized_einsum.rs')]),
 'P21': dict(module='p21', level='other', floor=1200, rule=VG + ' Obligations per subscript pattern: the planner accepts exactly operands whose equal labels agree in length, and its iteration lengths, output shape and strides (under every reordering of the axes) are those of the sum over all labels; einsum end to end; einsum_view; refusal of malformed subscripts; the axis order is a permutation.',
   technique='static abstract interpretation of MIR with constant subscripts and symbolic shapes and strides; ring normal form for the resulting sums',
   level_note='Bound: the listed subscript patterns (1 to 5 operands, up to 8 labels, repeated labels, every output order kind, empty ellipsis); for each, all lengths, strides and layouts. The axis order is decided for up to 3 axes. Rounding is outside (exact arithmetic).',
   assume=['elements form a commutative ring (rounding and overflow outside)', 'the loops and kernels add every product once (P16)'],
   title='einsum computes the sum over its labels for every shape and layout',
   statement='einsum with subscripts "ins -> out" returns an array with one axis per output label, whose elements are the sums, over all labels that are not in the output, of the products of the operand elements addressed by the labels; labels may repeat within an operand (diagonals), operands may have any memory layout, and the internal order of the axes does not matter. It accepts exactly operands whose axes with the same label agree in length and panics on malformed subscripts: repeated or unknown output labels, labels that do not match the rank of their operand, another number of subscripts than operands, characters that are not letters, incomplete, repeated or non-empty ellipses. einsum_view returns a view with the corresponding shape and strides exactly if no label is summed, None otherwise.',
   over=['inputs', 'configurations'], quant='all shapes, strides and layouts for every listed subscript pattern',
   why='Tests evaluate a few patterns on a few contiguous arrays; strides, equal lengths and axis orders hide planning errors.',
   files=['src/linalg/einsum.rs', 'src/ndarray/iterator/multi_flat_index_generator.rs', 'src/util/functions.rs'],
   mech=[('subscript parser', 'src/linalg/einsum.rs parse_operand_subscripts, parse_output_subscripts'), ('planner', 'src/linalg/einsum.rs prepare_einsum'), ('views', 'src/linalg/einsum.rs einsum_view'), ('axis order', 'src/ndarray/iterator/multi_flat_index_generator.rs find_best_axis_ordering')]),
}
NA = {
 'N01': dict(title='Floating-point results stay within a rounding bound of the exact result',
   statement='For any finite inputs the floating-point results of sum, mean, product, dot, matmul, bmm, einsum and of gradients differ from the exact mathematical result by no more than the accumulated rounding error of one operation per element combined.',
   over=['inputs'], quant='all floating-point inputs, lengths and kernels',
   why='The error depends on the values and the order of summation of every kernel; tests use small exact values.',
   files=['src/ops/reduce_sum.rs', 'src/ops/dot_product.rs', 'src/linalg/sum_of_products.rs'], mech=[('summation kernels', 'src/ops/reduce_sum.rs')],
   reason='The bound is on run-time magnitudes: a sound static error bound would have to bound the values of the elements, which no analysis of this code can. P03, P15, P16 and P21 decide that the exact expression is the right one.'),
 'N02': dict(title='einsum and the kernels choose an efficient loop order for every layout',
   statement='For any operands, einsum orders its loops and picks kernels so that the innermost loop runs over the axis with the smallest strides, and the work is linear in the size of the index space.',
   over=['inputs', 'configurations'], quant='all shapes, strides and subscripts',
   why='Performance is not observable in unit tests.',
   files=['src/linalg/einsum.rs', 'src/linalg/specialized_einsum.rs'], mech=[('axis ordering', 'src/linalg/einsum.rs')],
   reason='A statement about run time; the score the ordering minimises is a heuristic with no specification to decide against. P21 decides that any order it may choose gives the right result.'),
 'N03': dict(title='Debug printing shows every element at its place',
   statement='The Debug output of an array or tensor shows its elements nested by axis, in index order.',
   over=['inputs'], quant='all shapes, layouts and element types',
   why='The text depends on shape and element formatting; tests print a few arrays.',
   files=['src/ndarray/print.rs', 'src/tensor/print.rs'], mech=[('Debug impls', 'src/ndarray/print.rs')],
   reason='Formatting goes through core::fmt machinery (dynamic dispatch on formatter state), which the value-graph analysis does not model; the order in which elements are visited is decided by P05.'),
 'N04': dict(title='Random constructors draw from the stated distribution',
   statement='rand and randint draw uniformly, randn standard-normally, independently for each element.',
   over=['inputs', 'histories'], quant='all shapes and generator states',
   why='A distribution is a limit over histories; tests check ranges.',
   files=['src/common/random.rs'], mech=[('samplers', 'src/common/random.rs')],
   reason='Distribution and independence are properties of the rand crate\'s generator at run time. P18 decides range, one draw per element, and the distribution object used.'),
}
