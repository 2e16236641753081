"""Writes /verif/properties.jsonl (run by hand when a property's text changes)."""
import json, pathlib
P = []
def prop(id, title, statement, qtext, over, why, files, mechanism, observe, state=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": ["src/ptwt/" + f for f in files],
                          "mechanism": [{"name": n, "where": w} for n, w in mechanism],
                          "observe_at": observe, **({"state": state} if state else {})}})
I, C, H = "inputs", "configurations", "histories"
NUM = "Tests compare a few random or image signals for a few (wavelet, size, mode) triples within a float tolerance; "

prop("C01", "1-D padded FWT reconstructs its input perfectly",
 "For every real signal, every discrete wavelet and every boundary mode, level and axis for which wavedec succeeds, waverec of the returned coefficients equals the signal along the transformed axis. Only when that axis has odd length and at least one level was computed does the result carry one extra trailing sample; every other axis keeps its size.",
 "all signal values; all wavelet/mode/level/shape/axis/dtype combinations accepted by wavedec", [I, C],
 NUM + "they cannot cover all signal values nor the odd-length trimming at each level for each filter length.",
 ["conv_transform.py", "_util.py"], [("strided convolution analysis", "conv_transform.py:wavedec"), ("transposed convolution and pad trimming", "conv_transform.py:waverec, _util.py:_adjust_padding_at_reconstruction"), ("padding", "_util.py:_get_pad, _pad_symmetric; conv_transform.py:_fwt_pad")],
 ["ptwt.wavedec -> ptwt.waverec"])

prop("C02", "2-D padded FWT reconstructs its input perfectly",
 "For every real image batch, wavelet, boundary mode, level and pair of axes for which wavedec2 succeeds, waverec2 of the returned coefficients equals the image on its original extent. Each transformed axis of odd length may carry exactly one extra trailing sample when a level was computed; no other axis changes.",
 "all image values; all wavelet/mode/level/shape/axes combinations accepted by wavedec2", [I, C],
 NUM + "most 2-D tests need a downloaded image and mixed odd/even non-square shapes at depth are not covered.",
 ["conv_transform_2.py", "_util.py"], [("2-D analysis", "conv_transform_2.py:wavedec2"), ("2-D synthesis and trimming per axis", "conv_transform_2.py:waverec2"), ("outer product filters", "_util.py:_construct_2d_filt")],
 ["ptwt.wavedec2 -> ptwt.waverec2"])

prop("C03", "3-D padded FWT reconstructs its input perfectly",
 "For every real volume batch, wavelet, boundary mode, level and triple of axes for which wavedec3 succeeds, waverec3 of the returned coefficients equals the volume on its original extent. Each transformed axis of odd length may carry exactly one extra trailing sample when a level was computed; no other axis changes.",
 "all volume values; all wavelet/mode/level/shape/axes combinations accepted by wavedec3", [I, C],
 NUM + "each of eight subbands and three axes has its own index arithmetic that a handful of cubic shapes does not separate.",
 ["conv_transform_3.py", "_util.py"], [("3-D analysis", "conv_transform_3.py:wavedec3"), ("3-D synthesis and trimming per axis", "conv_transform_3.py:waverec3"), ("outer product filters", "_util.py:_construct_3d_filt")],
 ["ptwt.wavedec3 -> ptwt.waverec3"])

prop("C04", "Separable 2-D/3-D FWTs are axis-wise transforms and invert exactly",
 "fswavedec2 and fswavedec3 return, level by level, the subbands obtained by applying the one-dimensional single-level transform along each selected axis, each filed under the key whose i-th letter names the filter used on the i-th selected axis. fswaverec2 and fswaverec3 of these coefficients return the input on its original extent, with at most one extra trailing sample on transformed axes of odd length.",
 "all data values; all wavelet/mode/level/shape/axes combinations accepted", [I, C],
 NUM + "key naming and per-axis trimming over mixed odd/even axes and levels cannot be enumerated by sampled arrays.",
 ["separable_conv_transform.py", "conv_transform.py", "_util.py"], [("recursion over axes", "separable_conv_transform.py:_separable_conv_dwtn_, _separable_conv_idwtn"), ("levels", "separable_conv_transform.py:_separable_conv_wavedecn, _separable_conv_waverecn")],
 ["ptwt.fswavedec2", "ptwt.fswavedec3", "ptwt.fswaverec2", "ptwt.fswaverec3"])

prop("C05", "1-D analysis coefficients equal the discrete wavelet transform definition",
 "For every signal x of length N and every decomposition filter f of even length L, one level of wavedec returns floor((N+L-1)/2) coefficients, the i-th being the sum over k of f[k] times the extension of x at position 2i+1-k, where the extension is the documented one for the chosen boundary mode. Deeper levels apply the same rule to the approximation, and the result list is ordered [cA_n, cD_n, ..., cD_1].",
 "all signal values; all lengths, filter lengths, modes and levels accepted", [I, C],
 "Tests compare against PyWavelets on sampled signals; they cannot show index-exact agreement for every sample value, filter length and boundary mode.",
 ["conv_transform.py", "_util.py"], [("extension", "conv_transform.py:_fwt_pad, _util.py:_pad_symmetric_1d, _get_pad"), ("correlation with flipped filters", "conv_transform.py:wavedec, _util.py:_get_filter_tensors")],
 ["ptwt.wavedec"])

prop("C06", "2-D/3-D analysis equals the axis-wise definition with correct subband names",
 "wavedec2 returns per level (horizontal, vertical, diagonal) where horizontal is high-pass along the first selected axis and low-pass along the second, vertical the reverse, and diagonal high-pass along both; wavedec3 returns a dictionary whose key's i-th letter is the filter used on the i-th selected axis. Every coefficient equals the tensor product of the one-dimensional definition with the same boundary extension, and the results agree with the separable transforms of the same data.",
 "all data values; all wavelet/mode/level/shape/axes combinations accepted", [I, C],
 NUM + "a swapped subband or axis is invisible to round-trip tests and to symmetric test data.",
 ["conv_transform_2.py", "conv_transform_3.py", "_util.py"], [("filter stack order", "_util.py:_construct_2d_filt, _construct_3d_filt"), ("split of the channels", "conv_transform_2.py:wavedec2, conv_transform_3.py:wavedec3")],
 ["ptwt.wavedec2", "ptwt.wavedec3", "ptwt.fswavedec2", "ptwt.fswavedec3"])

prop("C07", "Stationary transform equals its definition and iswt inverts it",
 "swt returns [cA_n, cD_n, ..., cD_1], each as long as the signal, where level j is the periodic convolution of the previous approximation with the decomposition filters upsampled by 2^(j-1), in PyWavelets' alignment (trim_approx=True, norm=False). iswt of these coefficients equals the original signal for every accepted signal length, level, wavelet and axis.",
 "all signal values; all signal lengths, filter lengths and levels accepted, including filters longer than the signal", [I, C],
 "Tests use a few signals whose length is a power of two; the circular wrap for long or dilated filters and other lengths is not reached.",
 ["stationary_transform.py"], [("periodic extension", "stationary_transform.py:_circular_pad"), ("dilated convolution", "stationary_transform.py:swt"), ("grouped transposed convolution and mean", "stationary_transform.py:iswt")],
 ["ptwt.swt", "ptwt.iswt"])

prop("C08", "1-D boundary-wavelet transform inverts and equals its operator matrix",
 "For every signal and orthogonal wavelet, MatrixWaverec applied to the output of MatrixWavedec returns the signal (plus at most one trailing sample for odd lengths), for every odd-length padding mode, orthogonalization method, level and axis. When no padding is needed, multiplying the exposed sparse analysis operator with the signal gives the concatenated coefficients, and the exposed synthesis operator maps them back.",
 "all signal values; all lengths, orthogonal wavelets, levels, axes, padding modes", [I, C],
 NUM + "matrix entries depend on every length and the operator property is only tested for single configurations.",
 ["matmul_transform.py", "sparse_math.py"], [("analysis and synthesis matrices", "matmul_transform.py:construct_boundary_a, construct_boundary_s"), ("composition", "matmul_transform.py:sparse_fwt_operator, sparse_ifwt_operator; sparse_math.py:cat_sparse_identity_matrix")],
 ["ptwt.MatrixWavedec", "ptwt.MatrixWaverec", "sparse_fwt_operator", "sparse_ifwt_operator"])

prop("C09", "2-D/3-D boundary-wavelet transforms invert and equal their operators",
 "For every input, orthogonal wavelet, level, axes, padding mode, orthogonalization method and (in 2-D) separable flag, MatrixWaverec2/MatrixWaverec3 applied to the output of MatrixWavedec2/MatrixWavedec3 returns the input on its original extent, with at most one extra trailing sample per odd axis. In 2-D without separability and padding, the exposed operators reproduce analysis and synthesis of the column-wise flattened image; separable and non-separable subbands carry the same names as in the padded 2-D transform.",
 "all data values; all (non-square, odd, deep) shapes and configurations accepted", [I, C],
 "The 2-D matrix tests need a downloaded image; mixed odd/even shapes, several levels and both code paths are not covered.",
 ["matmul_transform_2.py", "matmul_transform_3.py", "sparse_math.py"], [("2-D matrices", "matmul_transform_2.py:MatrixWavedec2, MatrixWaverec2"), ("3-D matrices", "matmul_transform_3.py:MatrixWavedec3, MatrixWaverec3"), ("batched products", "sparse_math.py:batch_mm, _batch_dim_mm")],
 ["ptwt.MatrixWavedec2", "ptwt.MatrixWaverec2", "ptwt.MatrixWavedec3", "ptwt.MatrixWaverec3"])

prop("C10", "Boundary-wavelet analysis is orthogonal and keeps the wavelet inside",
 "For every orthogonal wavelet and even length at least the filter length, the boundary-wavelet analysis matrix preserves the inner product of any two signals, with either orthogonalization method, and the synthesis matrix is its transpose. Every coefficient whose filter support lies inside the signal equals the plain wavelet filter correlation there.",
 "all pairs of signals; all even lengths, orthogonal wavelets, both methods, 1-D and 2-D", [I, C],
 "Tests check A times S against the identity for a few sizes; a matrix can be invertible without being orthogonal or without containing the wavelet.",
 ["matmul_transform.py", "matmul_transform_2.py", "sparse_math.py"], [("row selection and orthogonalization", "matmul_transform.py:orthogonalize, sparse_math.py:_orth_by_qr, _orth_by_gram_schmidt"), ("strided convolution matrix", "sparse_math.py:construct_strided_conv_matrix")],
 ["ptwt.matmul_transform.construct_boundary_a", "construct_boundary_s", "construct_boundary_a2", "construct_boundary_s2", "ptwt.MatrixWavedec"])

prop("C11", "Reused transform and packet objects forget earlier inputs",
 "Calling a matrix transform object, or re-running transform on a packet object, gives for each input exactly what a freshly constructed object gives, whatever inputs (other lengths, shapes, batch sizes, dtypes or contents) it has processed before. This holds for explicit levels and for an automatically chosen level.",
 "all histories of earlier calls up to three calls; all data values", [H, I, C],
 "Tests reuse an object at most with one other shape; order- and dtype-dependent staleness across histories is not sampled.",
 ["matmul_transform.py", "matmul_transform_2.py", "matmul_transform_3.py", "packets.py"], [("matrix cache and rebuild decision", "matmul_transform*.py:__call__"), ("per-size caches", "packets.py:_get_wavedec, _get_waverec")],
 ["ptwt.MatrixWavedec*", "ptwt.MatrixWaverec*", "ptwt.WaveletPacket.transform", "ptwt.WaveletPacket2D.transform"],
 state=[{"name": "fwt_matrix_list / ifwt_matrix_list", "meaning": "cached level matrices", "where": "matmul_transform*.py"}])

prop("C12", "Transforms act per batch entry and are equivariant under axis choice",
 "Transforming chosen axes of a tensor equals moving these axes last (in the given order), transforming the last axes and moving them back, for positive, negative, unsorted and non-adjacent axes and any number of other dimensions. Every other index is transformed independently: no output entry depends on data from another batch entry, and the inverse transforms treat axes and batches the same way.",
 "all data values; all axis selections and batch shapes with up to five dimensions", [I, C],
 "Tests sample a few axis tuples with random data; leakage between batch entries or a wrong permutation for particular axis orders is not excluded.",
 ["_util.py", "conv_transform.py", "conv_transform_2.py", "conv_transform_3.py", "separable_conv_transform.py", "stationary_transform.py", "matmul_transform.py", "matmul_transform_2.py", "matmul_transform_3.py", "packets.py"], [("axis swap and fold", "_util.py:_preprocess_coeffs, _postprocess_coeffs, _swap_axes, _undo_swap_axes, _fold_axes")],
 ["all transforms with axis/axes arguments"])

prop("C13", "Transforms leave their arguments untouched and are repeatable",
 "No transform, inverse transform, packet operation or reconstruct call changes the contents or structure of the tensors, lists, tuples, dictionaries, filters or scales passed to it. Repeating a call with the same arguments gives the same result.",
 "all input values; all public transforms, input ranks and modes", [I, C, H],
 "Tests never look at the inputs after a call, and mutation happens only for particular ranks and modes.",
 ["separable_conv_transform.py", "matmul_transform_3.py", "conv_transform.py", "conv_transform_2.py", "conv_transform_3.py", "stationary_transform.py", "packets.py", "_util.py"], [("tree map copies", "_util.py:_coeff_tree_map"), ("detail dictionaries", "separable_conv_transform.py:_separable_conv_waverecn, matmul_transform_3.py:MatrixWaverec3.__call__")],
 ["all public transforms"])

prop("C14", "Precision and wavelet representation are honoured",
 "Every transform returns tensors of its input's floating dtype (32 or 64 bit) and computes float64 results without any value passing through lower precision; unsupported dtypes and coefficient lists of mixed dtype raise a ValueError. A wavelet given by name, as a PyWavelets object, or as a tuple of filter tensors of the same dtype gives the same coefficients, the same automatic level and the same reconstruction.",
 "all data values; all transforms and modes, both dtypes, the three wavelet forms", [I, C],
 "Tests use tolerances that a detour through float32 passes, and use tensor tuples only with explicit levels in one transform.",
 ["_util.py", "constants.py", "conv_transform.py", "conv_transform_2.py", "conv_transform_3.py", "separable_conv_transform.py", "stationary_transform.py", "matmul_transform.py", "matmul_transform_2.py", "matmul_transform_3.py"], [("filter conversion", "_util.py:_get_filter_tensors, _create_tensor, _get_len"), ("dtype checks", "_util.py:_check_same_dtype, _is_dtype_supported"), ("tuple wavelet", "constants.py:WaveletTensorTuple")],
 ["all public transforms"])

prop("C15", "Packet nodes are iterated one-level transforms, in any access order",
 "The packet at a path equals the result of applying the single-level transform of the configured mode, axes and wavelet successively along the letters of the path, starting from the data. The values do not depend on the order in which nodes are requested or initialized, and paths deeper than the maximum level or with invalid letters raise an error.",
 "all data values; all paths up to depth three and access orders of nodes, 1-D and 2-D, all modes", [I, C, H],
 "Tests compare complete trees with PyWavelets in one access order; the 2-D ones need a downloaded image.",
 ["packets.py"], [("lazy expansion", "packets.py:_expand_node, __getitem__"), ("choice of transform", "packets.py:_get_wavedec")],
 ["ptwt.WaveletPacket", "ptwt.WaveletPacket2D"],
 state=[{"name": "data", "meaning": "already expanded nodes", "where": "packets.py"}])

prop("C16", "Packet reconstruction inverts expansion and depends only on the leaves",
 "Reconstructing a fully expanded packet tree returns the original data on its extent (one trailing sample more only on odd axes), in 1-D and 2-D and for every mode. After assigning new leaf values, the reconstruction is the linear synthesis of exactly those leaves; values stored at inner nodes have no influence, and a missing leaf raises a KeyError.",
 "all data and leaf values; all modes, depths up to three, axes and odd shapes", [I, C, H],
 NUM + "edits of leaves and stale inner nodes are not explored.",
 ["packets.py"], [("bottom-up synthesis", "packets.py:reconstruct"), ("choice of inverse", "packets.py:_get_waverec")],
 ["ptwt.WaveletPacket.reconstruct", "ptwt.WaveletPacket2D.reconstruct"])

prop("C17", "Packet orderings list every node once, in natural and frequency order",
 "For every level, get_level returns each path of that length exactly once; natural order is lexicographic in a<d (a<h<v<d in 2-D). Frequency order sorts nodes by the frequency band their filters select: consecutive 1-D nodes differ in a single letter and the k-th node is the Gray code of k, and the 2-D order arranges rows and columns each by this rule.",
 "all levels up to the bound and all pairs of positions; 1-D and 2-D", [I, C],
 "Tests compare a few small levels with PyWavelets.",
 ["packets.py"], [("Gray code construction", "packets.py:_get_graycode_order"), ("2-D order", "packets.py:get_freq_order")],
 ["ptwt.WaveletPacket.get_level", "ptwt.WaveletPacket2D.get_level"])

prop("C18", "Continuous transform equals the sampled convolution definition",
 "cwt returns, for every scale and batch entry, minus the square root of the scale times the centred first difference of the full convolution of the data with the reversed, scale-resampled integrated wavelet, with output shape [scales, batch, time]. The result equals PyWavelets' definition for the given data at every scale and for every order of scales, and the returned frequencies are scale2frequency divided by the sampling period.",
 "all signal values; all supported wavelets, scale lists (any order, repeated) and signal lengths in the bound", [I, C],
 "Tests compare a few chirps with increasing scales; unusual scale orders, repeated padded sizes and batches are not covered.",
 ["continuous_transform.py"], [("resampling, FFT convolution and centring", "continuous_transform.py:cwt"), ("integration", "continuous_transform.py:_integrate_wavelet")],
 ["ptwt.cwt"])

prop("C19", "Learnable filter-bank losses vanish exactly on valid filter banks",
 "For every set of four equally long filters the perfect-reconstruction loss is the squared distance of the summed filter products from two at the centre and zero elsewhere, the alias-cancellation loss the squared norm of the summed alias terms, and the orthogonality losses the squared violations of the double-shift and time-reversal identities; each loss is non-negative and zero exactly when its condition holds. The total wavelet loss is the documented sum of these terms.",
 "all real filter coefficients of lengths up to the bound", [I, C],
 "Tests evaluate the losses on a few PyWavelets filters where they are near zero, which says nothing about other filters.",
 ["wavelets_learnable.py"], [("polynomial products by convolution", "wavelets_learnable.py:perfect_reconstruction_loss, alias_cancellation_loss"), ("orthogonality", "wavelets_learnable.py:SoftOrthogonalWavelet")],
 ["ProductFilter.wavelet_loss", "SoftOrthogonalWavelet.wavelet_loss", "the individual losses"])

prop("C20", "Sparse operators equal their dense definitions",
 "The sparse convolution constructors (1-D and 2-D, plain and strided, all padding modes) act on every input as the corresponding dense convolution with the same filter; the Kronecker product, shifted diagonal, row replacement and identity extension equal their dense definitions, and the batched products equal per-entry matrix multiplication.",
 "all filter, matrix and input values; all sizes, strides and padding modes in the bound", [I, C],
 "Tests compare with SciPy on random data for a few sizes; boundary index sets per mode and size are not covered exhaustively.",
 ["sparse_math.py"], [("index construction", "sparse_math.py:construct_conv_matrix, construct_conv2d_matrix, construct_strided_conv_matrix, construct_strided_conv2d_matrix"), ("algebra", "sparse_math.py:sparse_kron, sparse_diag, sparse_replace_row, cat_sparse_identity_matrix, batch_mm")],
 ["ptwt.sparse_math.*"])

prop("C21", "Malformed coefficients are rejected, never silently reconstructed",
 "The padded inverse transforms (1-D, 2-D, 3-D, separable) and the boundary-wavelet inverses raise an error when a detail container has the wrong kind, names or number of entries, when a coefficient's shape or batch dimensions do not match its level (an approximation may only exceed its level's details by the one sample an odd length costs), or when dtypes or devices are mixed or unsupported. Coefficients of the right structure and sizes are always accepted and give a result of the size they determine.",
 "all coefficient shapes and structures with sizes up to the bound, all coefficient values", [I, C],
 "Tests try a few broken tuples; which off-by-one shapes slip through for each level and axis is unexplored.",
 ["conv_transform.py", "conv_transform_2.py", "conv_transform_3.py", "matmul_transform.py", "matmul_transform_2.py", "matmul_transform_3.py", "_util.py"], [("shape checks per level", "conv_transform_2.py:waverec2, conv_transform_3.py:waverec3, _util.py:_adjust_padding_at_reconstruction"), ("structure checks", "conv_transform_2.py, conv_transform_3.py, matmul_transform_2.py, matmul_transform_3.py")],
 ["ptwt.waverec", "ptwt.waverec2", "ptwt.waverec3", "ptwt.fswaverec2", "ptwt.fswaverec3", "ptwt.MatrixWaverec*"])

prop("C22", "Automatic levels are the documented maximum for every size",
 "Without an explicit level, the padded transforms decompose to PyWavelets' maximum useful level floor(log2(N/(L-1))) of the shortest transformed axis (never below zero), the stationary transform to the number of times the length divides by two, and the matrix transforms to floor(log2(N/(L-1))), stopping early exactly when a level's signal is shorter than the filter (in 1-D, N counts the sample an odd signal is padded with). The packet trees' default depth is the same maximum over the selected axes only.",
 "all sizes up to the bound on each axis, all filter lengths, all axes", [I, C],
 "Tests mostly pass a level; the boundary sizes where the level changes and the choice of axes are not covered.",
 ["conv_transform.py", "conv_transform_2.py", "conv_transform_3.py", "separable_conv_transform.py", "stationary_transform.py", "matmul_transform.py", "matmul_transform_2.py", "matmul_transform_3.py", "packets.py"], [("level rules", "level is None branches")],
 ["number of returned levels with level=None", "maxlevel of packet trees"])

prop("C23", "Size laws hold for every length",
 "For every signal length N and even filter length L, one padded analysis level yields exactly floor((N+L-1)/2) coefficients and synthesis returns N samples for even N and N+1 for odd N, on every axis independently, and the same for padded packet nodes at every depth; the only refused inputs are those torch cannot pad (reflection needs less padding than samples, periodic padding no more padding than samples). Boundary-wavelet levels halve the even-padded size while the filter fits the signal, and invert to the signal's size (odd axes one more); every stationary coefficient and the stationary inverse have exactly N samples, for every N. Coefficient sizes that could not have come from such an analysis are refused when trimming to the next level, whatever the sizes are.",
 "all lengths N up to 4096 and even filter lengths L up to 102, all boundary modes", [I, C],
 "Tests sample lengths; the laws are about every length.",
 ["_util.py", "conv_transform.py", "conv_transform_2.py", "conv_transform_3.py", "stationary_transform.py", "matmul_transform.py", "matmul_transform_2.py", "matmul_transform_3.py", "packets.py"], [("padding arithmetic", "_util.py:_get_pad, _get_padding_n, _adjust_padding_at_reconstruction"), ("odd sizes of boundary transforms", "matmul_transform*.py:__call__"), ("circular padding", "stationary_transform.py:_circular_pad")],
 ["shapes of coefficients and reconstructions"])

prop("C24", "Transforms are linear and differentiable in their data",
 "Every transform and inverse transform is linear in its data, and back-propagating any weighting of its outputs to the data (or of a reconstruction to the coefficients) yields the adjoint of that linear map; no part of the computation detaches the data from the autograd graph.",
 "all data values, directions and output weightings; all transforms", [I, C],
 "Tests back-propagate once through one or two transforms; a detached branch changes no forward value.",
 ["conv_transform.py", "conv_transform_2.py", "conv_transform_3.py", "separable_conv_transform.py", "stationary_transform.py", "matmul_transform.py", "matmul_transform_2.py", "matmul_transform_3.py", "packets.py", "continuous_transform.py"], [("tensor-only computation", "all transforms")],
 ["torch.autograd through the public transforms"])

prop("C25", "Compilers, GPU devices and float rounding match the CPU reference",
 "Scripted or compiled transforms and CUDA execution give the same coefficients as eager CPU execution, and the rounding error of every transform stays within a small multiple of machine precision.",
 "all inputs, devices and compilation modes", [I, C],
 "No GPU in CI and only single traces with fixed shapes are compared.",
 ["conv_transform.py", "continuous_transform.py", "matmul_transform.py"], [("torch kernels", "torch")],
 ["torch.compile of the transforms", "CUDA tensors"])

prop("C26", "Omitted options mean their documented defaults and unusable ones are refused",
 "For every input, leaving any subset of the keyword options out gives exactly what passing their documented defaults gives (boundary mode reflect, or zero for wavedec3; last axes; QR orthogonalisation; zero padding of odd coefficients; separable 2-D boundary transforms and non-separable 2-D packets; sampling period 1 and precision 12), for analysis and synthesis alike, whatever the other options are. The deprecated spellings (boundary, boundary_orthogonalization) warn, act like orthogonalization and cannot be combined with it. Unknown padding modes, repeated or wrongly many axes, non-positive levels, filter banks of unequal lengths (boundary transforms), packet trees without data, too few data dimensions and unknown packet orders raise ValueError, and unsupported orthogonalisation methods NotImplementedError from the transform classes (an error from the matrix builders); none of them silently computes something else.",
 "all data values; every subset of omitted options, the others at their default or at another value; the listed kinds of unusable options", [I, C],
 "Tests name most options explicitly, so a default that differs between an analysis and its synthesis, or between entry points, shows up only for inputs and option subsets they do not combine.",
 ["_util.py", "conv_transform.py", "conv_transform_2.py", "conv_transform_3.py", "separable_conv_transform.py", "stationary_transform.py", "matmul_transform.py", "matmul_transform_2.py", "matmul_transform_3.py", "packets.py", "continuous_transform.py", "sparse_math.py"],
 [("default axes and axis checks", "_util.py:_ensure_axes, _get_default_axes, _check_axes_argument"), ("deprecated keywords", "_util.py:_deprecated_alias"), ("padding mode names", "_util.py:_translate_boundary_strings"), ("keyword defaults", "signatures of the public entry points")],
 ["public transforms called with and without their options", "warnings and exceptions raised"])

prop("C27", "Exact gradients for filter taps and learnable wavelet parameters",
 "When the wavelet is a tuple of tensors or a learnable filter bank that requires gradients, every convolution transform and inverse (1-D, 2-D, 3-D, separable, stationary) and every padded packet node back-propagates to the taps exactly the derivative of its outputs with respect to them, for all data and all taps: analysis to the decomposition filters, synthesis to the reconstruction filters, nothing detached and nothing to the filters that take no part. The continuous transform with a learnable wavelet (Shannon, complex Morlet) likewise sends its bandwidth and center parameters the derivative of the coefficients.",
 "all data values, all filter taps (not only wavelets), the listed bandwidth and center values, lengths, shapes, modes and levels in the bound", [I, C],
 "Tests train one learnable wavelet and watch a loss fall; a gradient that is missing or wrong for some subband, axis or level still lets it fall.",
 ["_util.py", "conv_transform.py", "conv_transform_2.py", "conv_transform_3.py", "separable_conv_transform.py", "stationary_transform.py", "packets.py", "wavelets_learnable.py", "continuous_transform.py"],
 [("filters enter as tensors", "_util.py:_get_filter_tensors, _create_tensor, _construct_nd_filt, _outer"), ("learnable banks", "wavelets_learnable.py:WaveletFilter.filter_bank"), ("learnable continuous wavelets", "continuous_transform.py:_DifferentiableContinuousWavelet, _integrate_wavelet")],
 ["torch.autograd from transform outputs to filter taps"])

prop("C28", "Results depend on values, not on memory layout or autograd mode",
 "Every transform, inverse, packet tree, continuous transform and sparse operator accepts tensors of any memory layout (transposed, stepped, offset, one plane of a larger tensor, repeated by expand, filter taps that are views) and returns exactly what it returns for contiguous copies of the same values; no_grad and enable_grad give the same values.",
 "all data and coefficient values; the listed layouts of data, coefficients and taps, ranks, axes, modes and levels in the bound", [I, C],
 "Tests build almost every input as a fresh contiguous tensor; code that reshapes or aliases memory differently only fails on views.",
 ["_util.py", "conv_transform.py", "conv_transform_2.py", "conv_transform_3.py", "separable_conv_transform.py", "stationary_transform.py", "matmul_transform.py", "matmul_transform_2.py", "matmul_transform_3.py", "packets.py", "continuous_transform.py", "sparse_math.py"],
 [("folding and moving axes", "_util.py:_fold_axes, _unfold_axes, _swap_axes, _undo_swap_axes"), ("sparse products", "sparse_math.py:batch_mm, _batch_dim_mm"), ("separable axis handling", "separable_conv_transform.py:_separable_conv_idwtn")],
 ["public transforms applied to views and to contiguous copies"])

prop("C29", "Traced transforms compute the eager result for every data of the traced shape",
 "The function torch.jit.trace records from a padded, separable, stationary, boundary or continuous transform, an inverse or a packet expansion returns for every data (or coefficients) of the traced shape, whatever the example it was traced with, exactly what the eager call returns; traced with the filter tensors as arguments it does so for every filter bank of the same lengths. Nothing computed from the example's values is frozen into the trace.",
 "all data, coefficient and filter values; the listed transforms, wavelets, modes, levels and shapes; examples random, all zero, all one", [I, C],
 "Tests trace each transform once and evaluate the trace on the very example it was traced with, where a frozen value cannot be seen.",
 ["conv_transform.py", "conv_transform_2.py", "conv_transform_3.py", "separable_conv_transform.py", "stationary_transform.py", "matmul_transform.py", "matmul_transform_2.py", "matmul_transform_3.py", "packets.py", "continuous_transform.py", "_util.py"],
 [("filter tensors", "_util.py:_as_wavelet, _get_filter_tensors"), ("padding and levels", "conv_transform.py:_fwt_pad, wavedec"), ("continuous wavelets", "continuous_transform.py:cwt")],
 ["torch.jit.trace of every public transform"])

pathlib.Path("/verif/properties.jsonl").write_text("".join(json.dumps(p) + "\n" for p in P))
import sys
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import jsonschema
s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
for p in P:
    jsonschema.validate(p, s)
print(len(P), "properties")
