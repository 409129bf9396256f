import os
import json
P=[]
def add(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
           anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech]))
    if state: d["anchors"]["state"]=[dict(name=state,meaning=state,where=files[0])]
    if observe: d["anchors"]["observe_at"]=[observe]
    d["anchors"]["hook_needed"]=None
    P.append(d)
D="torch_harmonics/distributed/"
add("P01","Balanced partition: every element has exactly one owner",
 "Partitioning a dimension over a group of ranks gives contiguous, non-empty, ordered chunks that cover it exactly once and differ in size by at most one, with the larger chunks first, and it is refused when there are fewer elements than ranks. Splitting a tensor yields exactly those chunks, and padding and flattening the leading dimensions for an exchange is undone without loss or reordering.",
 ["inputs","configurations"],"all dimension sizes, group sizes, tensor ranks, dims and leading shapes",
 "Tests sample a handful of sizes; ownership must be exact for every (size, group) pair because every distributed operator relies on it.",
 [D+"primitives.py"],[("balanced split","compute_split_shapes, split_tensor_along_dim"),("leading dim packing","flatten_and_pad_leading_dims, unpad_and_unflatten_leading_dims")],
 observe="returned chunk sizes and tensors")
add("P02","Distributed transposes re-shard losslessly and invert exactly",
 "An azimuth or polar transpose moves a tensor from being sharded along one dimension to being sharded along another so that every global element lands, unchanged and exactly once, on the rank and position the balanced partition assigns it. Any sequence of transposes composes the same way, the gradient of a transpose is exactly the reverse re-sharding, and neither dtype, memory layout nor the debug mode changes the result.",
 ["inputs","configurations","histories","schedules"],"all process grids, tensor shapes (even and uneven), dimension pairs, dtypes, and sequences of transposes",
 "Existing multi-rank tests are skipped without GPUs and only sample a few shapes; a permutation has to be right for every element of every uneven layout.",
 [D+"primitives.py"],[("all-to-all re-sharding","distributed_transpose_azimuth, distributed_transpose_polar")],
 state="owner and position of each global element",observe="local tensors on every rank after each step")
add("P03","Region reductions, gathers and scatters are exact adjoint pairs",
 "Each region operation on the polar or azimuth group (copy, reduce, scatter, gather, reduce-scatter, gather-with-reducing-gradient) returns on every rank exactly the sum, slice or concatenation over the group that it documents, and its gradient is the documented counterpart. The caller's tensors are never modified, the result keeps the input's dtype and precision, and uneven chunk sizes are handled exactly.",
 ["inputs","configurations","schedules"],"all group sizes, chunk sizes, dims, dtypes and values",
 "Multi-rank tests do not run in the suite and use a few even/uneven sizes; aliasing, precision and uneven-chunk errors appear only for particular sizes, dtypes and dims.",
 [D+"primitives.py"],[("region ops","copy_to_*, reduce_from_*, scatter_to_*, gather_from_*, reduce_from_scatter_to_*, gather_from_copy_to_*")],
 observe="outputs, gradients and inputs on every rank")
add("P04","Latitude halo exchange delivers exactly the neighbours' rows",
 "After a halo exchange each rank holds its own rows with, on either side, exactly the adjacent rows of the neighbouring ranks in global latitude order, and zeros beyond the poles. The gradient is the exact adjoint: each halo gradient is returned to the rank owning the row and added once, and nothing from a pole wraps to the other pole.",
 ["inputs","configurations","schedules"],"all polar group sizes, local heights, halo widths not exceeding the local height, and values",
 "No test exercises the halo exchange alone, and wrap-around or off-by-one errors only appear for certain rank positions and widths.",
 [D+"primitives.py"],[("halo exchange","polar_halo_exchange"),("neighbour lookup","get_group_neighbors")],observe="padded tensors and input gradients")
add("P05","All ranks agree on communication; no schedule deadlocks or changes results",
 "In every distributed operation, forward and backward, all ranks of a group issue the same sequence of matching collective calls with compatible shapes and types, and every point-to-point send has exactly one matching receive. Under every interleaving of the ranks and every admissible completion time of pending messages, all ranks terminate and obtain the same results, and no communication buffer is read or overwritten before its transfer has completed.",
 ["schedules","configurations","inputs"],"all interleavings of ranks, completion orders of asynchronous messages, process grids and operations",
 "A test run sees one schedule on one backend; a mismatch or premature buffer use is only visible under other schedules, grids or uneven splits.",
 [D+"primitives.py",D+"distributed_attention.py",D+"distributed_sht.py",D+"distributed_convolution.py",D+"distributed_resample.py",D+"distributed_quadrature.py",D+"distributed_spectral_convolution.py"],
 [("collectives","all calls into torch.distributed")],state="per-rank communication position, pending messages",observe="communication log of every rank")
add("P06","Distributed harmonic transforms equal the serial transforms",
 "For every process grid and every truncation the library accepts, the distributed scalar and vector harmonic transforms and their inverses return on each rank exactly its shard of what the serial transform returns on the gathered field, up to rounding, and the gradients with respect to the input agree in the same way. This includes uneven splits, grid types, normalisations, one or more leading dimensions, and fewer channels than ranks.",
 ["configurations","inputs","schedules"],"all process grids, grid sizes and types, truncations, norms, leading shapes and inputs",
 "The multi-rank tests need GPUs and are not run; errors show only for particular uneven combinations of grid, modes and channels.",
 [D+"distributed_sht.py",D+"primitives.py"],[("distributed SHT","DistributedRealSHT, DistributedInverseRealSHT, DistributedRealVectorSHT, DistributedInverseRealVectorSHT")],observe="module outputs and gradients per rank")
add("P07","Distributed discrete-continuous convolutions equal the serial ones",
 "For every process grid the distributed discrete-continuous convolution and its transpose return on each rank its shard of the serial layer's output for the gathered input, up to rounding. Input gradients agree shard by shard, and weight and bias gradients summed over all ranks equal the serial gradients, for all kernels, groups, resolutions and uneven splits accepted.",
 ["configurations","inputs","schedules"],"all process grids, in/out resolutions, grid types, kernels, groups, channel counts and inputs",
 "The multi-rank tests are not run without GPUs; splitting the sparse filter by latitude and re-sharding channels fails only in specific uneven or sparse cases.",
 [D+"distributed_convolution.py",D+"kernels/distributed_convolution_kernels.py"],[("distributed DISCO","DistributedDiscreteContinuousConvS2, DistributedDiscreteContinuousConvTransposeS2")],observe="module outputs and gradients per rank")
add("P08","Distributed quadrature, resampling and spectral convolution equal serial",
 "For every process grid the distributed quadrature, resampling and spectral convolution return on each rank its shard (or, for the integral, the full value) of the serial result on the gathered input, up to rounding, including gradients with respect to inputs and to the (gathered or summed) parameters. This holds for all resolutions, grid types, interpolation modes, groups and uneven splits they accept.",
 ["configurations","inputs","schedules"],"all process grids, resolutions, grid types, modes and inputs",
 "Multi-rank tests are not run; pole rows, uneven splits and replicated parameters need specific configurations.",
 [D+"distributed_quadrature.py",D+"distributed_resample.py",D+"distributed_spectral_convolution.py"],[("modules","DistributedQuadratureS2, DistributedResampleS2, DistributedSpectralConvS2")],observe="module outputs and gradients per rank")
add("P09","Distributed neighborhood attention equals serial attention",
 "For every process grid, distributed neighborhood attention (same-resolution, downsampling and upsampling) returns on each rank its shard of the serial attention output, with matching gradients, up to rounding, provided the cutoff reaches no further than the neighbouring latitude shards. While keys and values rotate around the longitude ring, every rank processes every longitude chunk exactly once, labelled with its true global offset, and every neighbour of an output point contributes exactly once.",
 ["configurations","inputs","schedules"],"all process grids with consistent longitude splits, resolutions, cutoffs, heads and inputs",
 "The ring kernels need CUDA, so nothing of this orchestration is tested here; halo widths, ring order and offset arithmetic fail only for particular grids.",
 [D+"distributed_attention.py",D+"primitives.py"],[("ring attention","DistributedNeighborhoodAttentionS2")],state="ring position, held chunk and its offset per rank",observe="ring-step kernel calls, outputs, gradients")
add("P10","Distributed lifecycle is consistent and serial without groups",
 "After any sequence of initialisations and finalisations, the reported initialisation state, group handles, group sizes and ranks are those of the latest registration, and of a single process (size one, rank zero) when nothing is registered. With no groups, or with only one of the two groups registered, every distributed operation behaves as the serial one along the unregistered axis, and debug mode never changes results but rejects wrongly declared shard sizes.",
 ["histories","configurations"],"all sequences of init/finalize/configuration calls, including one-sided registrations",
 "No test exercises sequences of registrations or one-sided grids.",
 [D+"utils.py",D+"primitives.py"],[("lifecycle","init, finalize, is_initialized, group queries, config.debug")],state="registered groups, debug override",observe="query functions and operator results after each call")
S="torch_harmonics/"
add("P11","Scalar harmonic transform is exact on band-limited fields",
 "Analysis of any field synthesised from coefficients within the truncation returns those coefficients (except the imaginary part at order zero and at the Nyquist order, which the grid cannot represent), for every grid type at the truncation it supports, every normalisation and phase convention, resolution and batch shape, up to rounding. Synthesis of a single coefficient is the corresponding spherical harmonic with the documented normalisation and sign, coefficients with order above degree are zero, and both transforms are linear with correct gradients.",
 ["inputs","configurations"],"all grids, sizes, truncations, norms, phase conventions, dtypes and coefficients",
 "Tests check a few resolutions statistically; exactness must hold for every (degree, order), parity, size and convention.",
 [S+"sht.py",S+"legendre.py",S+"quadrature.py",S+"fft.py"],[("scalar SHT","RealSHT, InverseRealSHT"),("Legendre recurrences","legpoly")],observe="transform outputs and gradients")
add("P12","Vector harmonic transform is exact and separates spheroidal and toroidal parts",
 "Analysis of any tangential field synthesised from spheroidal and toroidal coefficients of degree at least one and order below the Nyquist order within the truncation returns those coefficients for every grid, norm, phase convention, size and precision, up to rounding. The synthesis of a purely spheroidal coefficient is the surface gradient of the corresponding scalar harmonic and of a purely toroidal one its 90-degree rotation, so the two never mix.",
 ["inputs","configurations"],"all grids, sizes, truncations, norms, phase conventions and coefficients",
 "Tests compare a few cases; sign and mixing errors can be limited to certain orders, parities or norms.",
 [S+"sht.py",S+"legendre.py"],[("vector SHT","RealVectorSHT, InverseRealVectorSHT")],observe="transform outputs")
add("P13","Quadrature rules integrate exactly up to their degree",
 "For every supported rule, number of nodes and interval, the nodes are strictly ordered inside the interval and symmetric, the weights are positive and symmetric, and every polynomial up to the rule's degree of exactness is integrated exactly up to rounding. Latitudes run from north to south in colatitude, longitudes are equispaced without duplicating the meridian, and integrating a field on the sphere applies exactly these weights, optionally normalised to a mean.",
 ["inputs","configurations"],"all rules, node counts (odd, even, small, large), intervals and fields",
 "Tests evaluate few node counts; exactness must hold for each count and parity.",
 [S+"quadrature.py"],[("rules","legendre_gauss_weights, lobatto_weights, clenshaw_curtiss_weights, trapezoidal_weights, precompute_latitudes, precompute_longitudes, QuadratureS2")],observe="nodes, weights, integrals")
add("P14","Truncation limits and longitudinal Fourier modes are consistent",
 "The degree and order limits chosen for a grid are the largest (or requested) ones that the grid resolves, are triangular, and are the same in every module that uses them. The longitudinal transform returns the leading Fourier modes with zero padding beyond those available, and its inverse reproduces any real signal whose modes are within the limits, for every length, number of modes and normalisation.",
 ["inputs","configurations"],"all grid types, sizes, requested limits, lengths and mode counts",
 "Few sizes are tested; odd/even lengths, padding and truncation interact.",
 [S+"truncation.py",S+"fft.py"],[("truncation","truncate_sht"),("fft","rfft, irfft")],observe="returned limits and spectra")
add("P15","Discrete-continuous convolution equals its defining sum on every path",
 "The convolution output equals the defining weighted sum over input points of the sparse filter shifted in longitude with periodic wrap-around, mixed over channel groups by the weights plus bias, and the transposed convolution is its exact adjoint form. The compiled kernels, the reference implementation, and all execution options give the same values and the same gradients for input, weight and bias, for every resolution ratio, group and channel count, batch size and dtype supported.",
 ["inputs","configurations"],"all filters (including empty rows and single-row supports), resolution ratios, groups, channels, batch sizes, options and inputs",
 "Tests compare a handful of layer shapes within tolerance; index, wrap-around and sparsity-layout errors appear for specific shapes.",
 [S+"disco/convolution.py",S+"disco/optimized/disco_optimized.py",S+"disco/optimized/disco_helpers.h",S+"disco/optimized/kernels_cpu/disco_cpu_fwd.h",S+"disco/optimized/kernels_cpu/disco_cpu_bwd.h",S+"disco/kernels_torch/disco_torch.py"],
 [("contraction","disco kernels forward/backward, layer forward"),("sparse layout","preprocess_psi, pack_psi_dense")],observe="layer and kernel outputs, gradients")
add("P16","Convolution filters are supported exactly on the cutoff disk",
 "For every output latitude the precomputed filter contains exactly the input points within the cutoff distance, each once, with the value of the basis function at the geodesic offset times the input point's quadrature weight, scaled by the documented normalisation. Filter bases have the documented number of functions and isotropy, and vanish outside their support.",
 ["inputs","configurations"],"all resolutions, grid types, basis types, kernel shapes, cutoffs and normalisation modes",
 "Tests compare few shapes to a copy of the formula; boundary, pole and wrap-around membership depends on the exact geometry.",
 [S+"disco/convolution.py",S+"filter_basis.py"],[("filter tensor","_precompute_convolution_tensor_s2, _normalize_convolution_tensor_s2"),("bases","get_filter_basis")],observe="filter entries held by the layers")
add("P17","Neighborhood attention equals quadrature-weighted softmax over the disk",
 "Each output point's attention is the softmax of scaled query-key products over exactly the input points within the cutoff, weighted by their quadrature weights, applied to the values, per head, for same-resolution, downsampling and upsampling layers. Results are invariant to a common shift of the logits, lie in the range of the neighbours' values before projection, and the compiled and reference kernels agree in values and in all gradients for all shapes, heads and layouts.",
 ["inputs","configurations"],"all resolutions and ratios, cutoffs, head and channel counts, layouts and logits of any magnitude",
 "Tests compare a few shapes at unit-scale logits.",
 [S+"attention/attention.py",S+"attention/_layout.py",S+"attention/kernels_torch/attention_torch.py",S+"attention/optimized/attention_optimized.py",S+"attention/optimized/kernels_cpu/attention_cpu_fwd.h",S+"attention/optimized/kernels_cpu/attention_cpu_bwd.h",S+"attention/optimized/kernels_cpu/attention_cpu_fwd_upsample.cpp",S+"attention/optimized/kernels_cpu/attention_cpu_bwd_upsample.cpp"],
 [("neighborhood attention","NeighborhoodAttentionS2 and its kernels")],observe="layer and kernel outputs, gradients")
add("P18","Global attention is the quadrature-weighted softmax over the sphere",
 "Global spherical attention equals the softmax over all input points of scaled per-head query-key products weighted by the grid's quadrature weights, applied to the projected values. Values that are constant over the sphere are reproduced unchanged before the output projection, and gradients match the definition.",
 ["inputs","configurations"],"all resolutions, grids, heads, channel counts and inputs",
 "Tests compare one or two shapes to a torch baseline.",
 [S+"attention/attention.py"],[("global attention","AttentionS2")],observe="layer outputs and gradients")
add("P19","Resampling interpolates linearly with periodic longitudes and correct poles",
 "Resampling reproduces the input where source and target points coincide, reproduces fields that are linear in latitude or constant, interpolates between the two enclosing points in each direction with weights summing to one, and wraps periodically in longitude. Rows beyond the outermost source latitudes are interpolated towards the mean of the outermost row, and the bilinear mode is linear in the input, the spherical mode follows its documented formula, both with matching gradients.",
 ["inputs","configurations"],"all pairs of resolutions and grid types, modes and inputs",
 "Few resolution pairs are tested; coincidence, wrap and pole cases depend on the pair.",
 [S+"resample.py"],[("resampling","ResampleS2")],observe="layer outputs and gradients")
add("P20","Spectral convolution mixes channels per degree and nothing else",
 "The spectral convolution transforms the input, multiplies each degree's coefficients by that degree's channel matrix within each channel group, independent of the order, and transforms back; with a bias, the documented spectral bias scaled by each channel's integral is added to the coefficients first. It therefore equals that defining expression for all inputs and resolutions. It never couples different degrees or groups, and changes of resolution keep the common coefficients.",
 ["inputs","configurations"],"all resolutions, grids, groups, channel counts and inputs",
 "Tests check a few shapes.",
 [S+"spectral_convolution.py"],[("spectral convolution","SpectralConvS2")],observe="layer outputs and gradients")
add("P21","Random fields have the prescribed spectrum and are reproducible",
 "Every sampled field is the synthesis of independent Gaussian coefficients with exactly the prescribed per-degree standard deviation, has zero mean over the sphere, depends only on the supplied or generated noise, and is reproducible from the seed for every batch size, resolution and parameter choice.",
 ["inputs","configurations","histories"],"all resolutions, smoothness parameters, batch sizes, noises and call histories",
 "Statistical tests cannot establish the exact linear map from noise to field.",
 [S+"random_fields.py"],[("GRF","GaussianRandomFieldS2")],observe="fields from given noise")
add("P22","Cached precomputations are isolated and keyed by all arguments",
 "Whatever the history of calls and of in-place modifications of previously returned objects, a cached precomputation returns the same value as a fresh computation with the same arguments; results for different arguments are never confused, and no two layers share mutable tensors through the cache (the immutable filter basis object is shared by documentation). A bounded cache that evicts entries never changes results.",
 ["histories","inputs"],"all sequences of calls, mutations and evictions",
 "Tests exercise one or two calls; leaks need a particular history of mutation and reuse.",
 [S+"cache.py",S+"quadrature.py",S+"legendre.py",S+"filter_basis.py",S+"disco/convolution.py"],[("cache","lru_cache decorator and cached functions")],state="cache contents, aliasing of returned objects",observe="returned values after each history")
add("P23","Operators commute with longitude rotations",
 "Rotating the input by a whole number of grid steps in longitude rotates the output of every grid operator (convolutions, attention, resampling, spectral convolution without its order-dependent spectral bias) by the corresponding steps, and multiplies the coefficients of the harmonic transforms by the corresponding phases, for every resolution and shift. Integrals are unchanged by the rotation.",
 ["inputs","configurations"],"all operators, resolutions, shifts and inputs",
 "Equivariance must hold for every shift, latitude and resolution; tests do not sample it.",
 [S+"sht.py",S+"disco/convolution.py",S+"attention/attention.py",S+"resample.py",S+"spectral_convolution.py",S+"quadrature.py"],[("operators","all modules on the grid")],observe="outputs for rotated inputs")
add("P24","Layers are pure: no input mutation and no dependence on history",
 "Calling a layer never modifies its inputs, parameters or buffers, and its output depends only on its construction arguments, parameters and current inputs: repeated calls, calls with other inputs, batch sizes or memory layouts in between, training or evaluation mode, and copying, saving or reloading the layer do not change it. Backward passes likewise return the same gradients after any history.",
 ["histories","inputs"],"all sequences of forward and backward calls, memory layouts and module copies",
 "Tests use fresh modules; stale-state bugs need a particular call history.",
 [S+"sht.py",S+"disco/convolution.py",S+"disco/optimized/disco_optimized.py",S+"attention/attention.py",S+"resample.py",S+"spectral_convolution.py",S+"quadrature.py"],[("modules","all public modules")],state="module parameters, buffers, caches",observe="outputs and buffers along call histories")
add("P25","Spherical losses and metrics weight points by area",
 "The spherical losses and metrics equal their documented per-point quantity averaged with normalised quadrature weights of the grid: constants give their own value, identical prediction and target give zero loss or perfect score, ignored or masked points never contribute to losses or scores, and the result does not depend on longitude rotations or on batch order.",
 ["inputs","configurations"],"all grids, resolutions, class counts, masks and inputs",
 "There are no tests for these modules at all.",
 [S+"examples/losses.py",S+"examples/metrics.py"],[("losses","SphericalLossBase subclasses, DiceLossS2, CrossEntropyLossS2, FocalLossS2"),("metrics","IntersectionOverUnionS2, AccuracyS2")],observe="loss and metric values")
add("P26","Shallow-water solver conserves mass and keeps spectral form",
 "Along any run of the shallow-water solver total mass, mean vorticity and mean divergence stay constant, a state of rest with constant depth stays exactly at rest, and converting between winds and vorticity/divergence is an exact inverse for resolved fields. One run of several steps follows the documented multistep scheme for every number of steps.",
 ["histories","inputs"],"all initial states, step counts, grids and resolutions",
 "There are no tests for the solver; conservation must hold for every history.",
 [S+"examples/shallow_water_equations.py"],[("solver","ShallowWaterSolver")],state="spectral state, tendencies",observe="state after each run")
add("P27","Compiled and data-free execution equal eager execution",
 "Running a layer through a graph compiler, or on tensors without data, changes nothing: predicted shapes and types equal the real ones, operators of the library return what their data-free versions predict without aliasing or modifying their arguments, and after any sequence of calls with changing batch sizes, memory layouts, gradient modes, resets and in-place parameter updates the compiled layer returns the values and gradients of the plain layer for the current inputs and parameters.",
 ["histories","inputs","configurations"],"all layers, call histories, batch sizes, layouts and compiler strategies",
 "Tests check single operator calls; stale graphs and wrong predictions need a history of differing calls.",
 [S+"disco/optimized/disco_optimized.py",S+"attention/optimized/attention_optimized.py",S+"attention/kernels_torch/attention_torch.py",S+"attention/_layout.py",S+"spectral_convolution.py",S+"sht.py",S+"resample.py"],[("operators","custom operators and their data-free versions"),("modules","all public modules under torch.compile")],state="captured graphs and their guards, parameters",observe="outputs and gradients along call histories")
add("P28","Misuse is refused, never answered with a wrong result",
 "A layer answers exactly the calls its configuration describes, with the documented output shape; a field with other grid extents, another number of channels, too few dimensions or mismatching batch sizes raises an error and is never read out of bounds, truncated, padded or broadcast, and a configuration outside the documented choices (unknown grid, basis, mode, indivisible groups or longitudes, non-positive cutoff) raises when the layer is built. A refused call leaves no trace: later calls return what a fresh layer returns. Distributed layers refuse alike on every rank without hanging.",
 ["inputs","configurations","histories"],"all layers, configurations, input shapes and call histories",
 "Tests call layers correctly; a wrong size that happens to broadcast or to stay inside the buffer yields plausible numbers.",
 [S+"sht.py",S+"disco/convolution.py",S+"attention/attention.py",S+"resample.py",S+"spectral_convolution.py",S+"quadrature.py",S+"distributed/distributed_convolution.py",S+"distributed/distributed_sht.py"],[("modules","constructors and forward methods of all public modules")],state="parameters and buffers",observe="exceptions, output shapes and values along call histories")
add("P29","Mixed precision costs rounding only, identically on every path",
 "For fields of any floating-point type, inside or outside (nested, disabled) regions of automatic mixed precision (one 16-bit type at a time), each layer answers in its documented type: resampling and spectral convolutions keep the type of the field and are untouched by the region, quadrature never narrows, attention answers in the type of the region, convolutions in that type widened by the bias. The answer loses only the rounding of the coarsest type involved against float32 execution on the same numbers, float64 calls keep float64 precision, gradients have the types of their leaves, and the region is found as it was left, also after failed calls. Compiled and reference kernels, serial and distributed layers agree in this.",
 ["inputs","configurations","histories"],"all layers, number types and histories of regions and calls",
 "Tests compare single calls in one type; which type rounds where depends on the nesting of regions, parameter types and execution path.",
 [S+"disco/optimized/disco_optimized.py",S+"disco/kernels_torch/disco_torch.py",S+"attention/optimized/attention_optimized.py",S+"attention/kernels_torch/attention_torch.py",S+"spectral_convolution.py",S+"distributed/distributed_spectral_convolution.py",S+"resample.py",S+"quadrature.py",S+"sht.py"],[("operators","autocast rules of the custom operators"),("modules","forward methods of all public modules")],state="open regions of automatic mixed precision, parameter types",observe="types and errors of outputs and gradients along histories")
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl"),"w") as f:
    for d in P: f.write(json.dumps(d)+"\n")
for d in P: assert len(d["title"])<=80,(d["id"],len(d["title"]))
