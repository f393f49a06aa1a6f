import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","Compiled kernels are memory safe, free of undefined behaviour, and do not leak",
 "For every array shape and parameter in the documented range, a call into any public function that runs compiled code (reconstruction, projection, resampling, filtering, inpainting, stripe detection, ring removal, background normalisation) reads and writes only inside the arrays it was given, executes no undefined behaviour, and never lets its result depend on uninitialised memory. Repeating such a call any number of times does not grow the memory held by the library.",
 ["inputs","configurations"],"all shapes (including 1-pixel, odd, power-of-two, non-square grids, grids larger or smaller than the detector), angles, centers, iteration counts, block layouts, filter names and kernel sizes",
 "The tests call each kernel once on one fixed data set in a release build with no sanitizer; an out-of-bounds access of a few bytes or a leak passes silently.",
 ["source/libtomo/recon/*.c","source/libtomo/gridrec/gridrec.c","source/libtomo/misc/*.c","source/libtomo/prep/*.c","source/tomopy/util/extern/*.py"],
 [("buffer sizing and index arithmetic","source/libtomo"),("argument marshalling","source/tomopy/util/extern")],
 ["ASan/UBSan reports of the instrumented libraries","allocator byte count around repeated calls","results of two runs with different fill patterns of fresh heap memory"])

p("C02","Concurrent execution is race free and gives the sequential results",
 "Compiled kernels working at the same time on different slices, and the worker threads a kernel starts itself, never access the same memory without synchronisation when one of the accesses is a write. Any number of reconstructions, projections or in-process filters issued at the same time from different threads of one program each return exactly what they return when issued alone.",
 ["schedules","inputs"],"every interleaving of threads, any mix of algorithms and data sizes, any number of threads",
 "No test issues two calls at once, and a race in a kernel shows only under particular timings.",
 ["source/tomopy/recon/algorithm.py","source/tomopy/util/mproc.py","source/libtomo/recon/*.c","source/libtomo/gridrec/gridrec.c","source/libtomo/misc/*.c","source/libtomo/prep/*.c"],
 [("disjoint output slices per worker; no shared scratch","source/tomopy/recon/algorithm.py:_dist_recon"),("private clauses and per-iteration double buffers","source/libtomo/misc, source/libtomo/prep OpenMP loops"),("thread safe FFT planning","source/libtomo/gridrec/gridrec.c")],
 ["ThreadSanitizer reports","results of concurrent calls compared with sequential calls"])

p("C03","Results do not depend on the number of workers or the chunk size",
 "Every function that accepts a worker count or a chunk size returns the same array, bit for bit, for every positive value of either, including one, more workers than slices, chunk sizes that do not divide the number of slices, and per-slice rotation centers or per-slice regularisation data. The only latitude is rounding-level differences of the Fourier-grid reconstruction, and the documented random inpainting.",
 ["configurations","schedules","inputs"],"worker counts 1..>slices, chunk sizes 0..>slices, all parallel public functions, all data",
 "Tests run each function with one worker setting and compare a single reference, so a partition-dependent result never shows.",
 ["source/tomopy/recon/algorithm.py","source/tomopy/util/mproc.py","source/tomopy/sim/project.py","source/tomopy/prep/*.py","source/tomopy/misc/corr.py","source/libtomo"],
 [("slicing of data, centers, regularisation data and output per chunk","source/tomopy/recon/algorithm.py:_dist_recon, source/tomopy/util/mproc.py"),("per-thread element ownership","OpenMP loops in source/libtomo")],
 ["public API return values under varied worker/chunk settings"])

p("C04","Slices are processed independently of their neighbours",
 "Reconstruction and every per-sinogram or per-projection correction computes each output slice from the matching input slice alone: processing a stack gives, slice by slice, what processing each slice by itself gives, permuting the input slices permutes the output slices, and changing one slice, even to NaN, changes no other output slice (the Fourier-grid method transforms two neighbouring slices together, so there it holds for finite data and to rounding). Slice-wise parameters such as per-slice centers travel with their slice.",
 ["inputs","configurations"],"all stacks, all permutations, all algorithms and per-slice corrections",
 "Tests use one volume and never look at single slices, permuted slices or poisoned neighbours.",
 ["source/tomopy/recon/algorithm.py","source/libtomo/recon/*.c","source/libtomo/gridrec/gridrec.c","source/tomopy/prep/stripe.py","source/tomopy/prep/phase.py","source/tomopy/misc/corr.py"],
 [("per-slice offsets and per-slice scratch reset","source/libtomo/recon"),("per-slice loops of the corrections","source/tomopy/prep, source/tomopy/misc")],
 ["public API return values on stacks, sub-stacks and permuted stacks"])

p("C05","Caller's arrays are not modified",
 "A call leaves every array argument bit for bit as it was, unless that argument is the output buffer, the initial reconstruction that iterations continue from, or the function is documented to work in place. Where an output buffer is given, the result is written there and returned.",
 ["inputs","configurations"],"all public functions, all dtypes and memory layouts, with and without output buffers",
 "Tests compare results and never look at what happened to their inputs.",
 ["source/tomopy/util/dtype.py","source/tomopy/util/mproc.py","source/tomopy/recon/algorithm.py","source/tomopy/prep/*.py","source/tomopy/misc/*.py","source/tomopy/sim/*.py"],
 [("copies before in-place kernels","source/tomopy/util/dtype.py, source/tomopy/util/mproc.py:get_shared_out and wrappers"),("out= handling","source/tomopy/misc/corr.py, source/tomopy/prep/normalize.py, source/tomopy/prep/stripe.py")],
 ["argument bytes before and after each public call"])

p("C06","Results do not depend on how the caller stores the data",
 "Passing the same numbers as float32 or float64 or an exactly representable integer type, in C or Fortran order, as a strided or offset view, as a read-only array, or as a view of an array returned by an earlier tomopy call, gives the same result to single-precision accuracy. No memory layout of an array argument makes a function use other elements than the ones the array denotes.",
 ["inputs","configurations"],"all public array functions, all array arguments (data, angles, centers, flats, darks, masks), all numpy layouts and numeric dtypes",
 "Tests only pass C-contiguous float32 arrays loaded from files.",
 ["source/tomopy/util/dtype.py","source/tomopy/util/extern/*.py","source/tomopy/recon/algorithm.py","source/tomopy/sim/project.py","source/tomopy/misc/corr.py","source/tomopy/util/mproc.py"],
 [("dtype and contiguity conversions at the ctypes boundary","source/tomopy/util/dtype.py, source/tomopy/util/extern"),("shared memory recognition","source/tomopy/util/dtype.py")],
 ["public API return values for equivalent representations"])

p("C07","Parallel job distribution processes every chunk exactly once",
 "Distributing a function over one or more arrays along an axis calls it on chunks that together cover every index of that axis exactly once, hands corresponding chunks of all arrays to the same call, gives every extra argument to every call, and returns the concatenation of the results in the original order. The slices a worker plan assigns are disjoint, in order and cover the axis, for every axis length, worker count and chunk size.",
 ["inputs","configurations","schedules"],"all axis lengths, axes, worker counts, chunk sizes, single and multiple arrays, output buffers, in-place and returning functions",
 "The two distribution tests use one array shape and one function and cannot see a chunk processed twice or out of order.",
 ["source/tomopy/util/mproc.py","source/tomopy/recon/algorithm.py","source/tomopy/misc/corr.py"],
 [("chunk arithmetic","source/tomopy/util/mproc.py:get_ncore_slices/get_ncore_nchunk/distribute_jobs"),("shared memory hand-over","source/tomopy/util/mproc.py, source/tomopy/util/dtype.py")],
 ["event log of every chunk call (process, slice tags) written by the distributed function","returned array"])

p("C08","Worker failures surface as exceptions",
 "If the computation of any chunk fails, in a thread or in a worker process, including the abrupt death of a worker, the call raises an exception in the caller instead of returning a partially computed or uninitialised array. The failure leaves no hanging call, and the next call works normally.",
 ["fault_sequences","schedules","inputs"],"every chunk position, every kind of failure (exception, exit, kill), every parallel function",
 "Tests never make a worker fail.",
 ["source/tomopy/util/mproc.py","source/tomopy/recon/algorithm.py","source/tomopy/misc/corr.py","source/tomopy/prep/phase.py"],
 [("collection of futures and pool results","source/tomopy/recon/algorithm.py:_dist_recon, source/tomopy/util/mproc.py:distribute_jobs, source/tomopy/misc/corr.py"),("watching of worker processes","source/tomopy/util/mproc.py")],
 ["outcome of calls with injected worker faults"])

p("C09","Forward projection computes the line integrals of the object",
 "Each value of a simulated projection is the sum over pixels of value times length of the ray inside the pixel, for the ray given by its angle, detector position and rotation center, to single-precision accuracy; vector-field projections weight the components by the ray direction. Hence projection is linear in the object, conserves the total mass of an object inside the field of view at every angle, is periodic in the angle, treats slices independently, transmission equals the exponential of the negated line integral, and the sinogram order option only swaps the first two axes.",
 ["inputs","configurations"],"all objects, grids, angles, centers, padding and ordering options",
 "One test projects one phantom at a handful of angles and compares with a stored result.",
 ["source/tomopy/sim/project.py","source/libtomo/recon/project.c","source/libtomo/recon/utils.c","source/tomopy/util/extern/recon.py"],
 [("Siddon ray tracing","source/libtomo/recon/utils.c, source/libtomo/recon/project.c"),("geometry defaults","source/tomopy/sim/project.py")],
 ["return values of the projection functions compared with an independent double-precision ray tracer"])

p("C10","Iterative reconstructions follow their published update rules",
 "For every data set, geometry, initial guess, number of iterations, regularisation parameter and ordered-subset layout, the volume returned by each iterative algorithm (algebraic, block algebraic, simultaneous, maximum likelihood and its ordered-subset and penalised variants, gradient descent, Tikhonov, total variation, and vector-field reconstruction with default axes) equals the one obtained by applying that algorithm's published update with exact ray-pixel intersection lengths, to single-precision accuracy.",
 ["inputs","configurations"],"data, angles, centers, non-square grids, iteration counts, subset counts and orders, regularisation parameters and reference images",
 "Tests run each algorithm once with default subsets on one data set, so subset layout, grid shape, center and regularisation paths are not exercised.",
 ["source/tomopy/recon/algorithm.py","source/tomopy/recon/vector.py","source/libtomo/recon/*.c"],
 [("update formulas","source/libtomo/recon/{art,bart,sirt,mlem,osem,ospml_*,pml_*,grad,tikh,tv,vector}.c"),("option passing","source/tomopy/recon/algorithm.py, source/tomopy/util/extern/recon.py")],
 ["returned volumes compared with a double-precision reference implementation"])

p("C11","Analytic reconstructions invert the projection with the requested filter",
 "The Fourier-grid method and plain (documented as unfiltered) back-projection are linear in the data; the Fourier-grid method applies exactly the named filter with the given parameters (a named filter and the custom filter holding the same numbers agree); both honour the rotation center and the grid size, and recover a smooth object from its projections within the method's accuracy, for every slice count, detector width and angle set.",
 ["inputs","configurations"],"data, detector widths around powers of two, odd and even slice counts, per-slice centers, all filters and cutoffs, grid sizes",
 "Tests use one data set, one width and default filter parameters with a loose tolerance.",
 ["source/libtomo/gridrec/gridrec.c","include/libtomo/filters.h","source/libtomo/recon/fbp.c","source/tomopy/recon/algorithm.py","source/tomopy/util/extern/gridrec.py"],
 [("gridding, filter tables and center phase","source/libtomo/gridrec/gridrec.c"),("filter formulas","include/libtomo/filters.h")],
 ["returned volumes compared with a double-precision gridding model, a direct back-projection and analytic objects"])

p("C12","Iterations compose and keep their invariants",
 "Running n iterations and continuing from the result for m more equals running n+m iterations for every algorithm whose state is the image alone, zero iterations return the initial guess, data exactly explained by the initial guess leaves it unchanged, the likelihood methods keep a non-negative image non-negative (up to rounding for the penalised ones), the plain one never lowers the likelihood, and the gradient-type methods never increase the data misfit for admissible steps.",
 ["histories","inputs","configurations"],"all splits of an iteration count, all data, initial guesses and subset layouts",
 "Tests run one fixed iteration count and never continue from a previous result.",
 ["source/tomopy/recon/algorithm.py","source/libtomo/recon/*.c"],
 [("image carried between iterations only through the reconstruction array","source/libtomo/recon/*.c"),("initial guess handling","source/tomopy/recon/algorithm.py:init_tomo and recon")],
 ["trace of volumes after each iteration count"])

p("C13","Normalisation applies its documented formulas",
 "Normalised data equals (projection minus mean dark) divided by (mean flat minus mean dark) with tiny denominators raised to the documented floor and the optional cutoff applied; the nearest-flat variant uses, for every projection, the flat closest in time; background normalisation divides by the straight line through the border averages; region normalisation divides by the region mean; and the minus-log transform is the exact elementwise operation. All elements of all projections are treated, and results keep the input shape.",
 ["inputs","configurations"],"all data including zeros, saturated and equal flat/dark, any number of flats and darks, any flat locations, border widths, regions and cutoffs",
 "Tests compare one stored data set, with default options.",
 ["source/tomopy/prep/normalize.py","source/libtomo/prep/prep.c"],
 [("formulas","source/tomopy/prep/normalize.py, source/libtomo/prep/prep.c")],
 ["return values compared with double-precision formulas"])

p("C14","Filters and outlier removal compute their definitions at every pixel",
 "Median, Gaussian, Sobel (along the last axis of each slice) and 3D median filters return at every voxel, borders included, the value the definition gives for the requested size, axis and boundary rule, as do the variants that hand the projections to tomocuda; outlier removal replaces by the local median exactly the voxels that deviate from it by at least the threshold (in either direction in 3D, upwards in the 2D and 1D variants) and leaves all others bit for bit; value repair (NaN, negative, non-finite), circular masking and range clipping change exactly the pixels they name.",
 ["inputs","configurations"],"all data incl. NaN/inf, float and integer types, kernel sizes, axes, thresholds, thread counts",
 "Tests compare a few tiny arrays or one stored result each; borders, even kernels and integer data are not covered.",
 ["source/tomopy/misc/corr.py","source/libtomo/misc/median_filt3d.c"],
 [("filter kernels","source/tomopy/misc/corr.py, source/libtomo/misc/median_filt3d.c")],
 ["return values compared with brute-force definitions"])

p("C15","Inpainting and stripe detection touch only what they should",
 "Inpainting leaves every unmasked voxel bit for bit, fills masked voxels only with values inside the range of the surrounding data by the chosen rule (weighted mean, median, or mean of random neighbours), and with an empty mask returns the input. Stripe detection returns weights between 0 and 1 that follow its published ratio-of-means and vertical-median (rank just below the middle) definition, and the stripe mask marks exactly the voxels selected by thresholding followed by the documented length, depth and width rules.",
 ["inputs","configurations","schedules"],"all data, masks, window sizes, iteration counts, thread counts",
 "Tests check a sum or two values on a single array.",
 ["source/tomopy/misc/corr.py","source/libtomo/misc/inpainter.c","source/tomopy/prep/stripe.py","source/libtomo/prep/stripes_detect3d.c"],
 [("masked update with double buffering","source/libtomo/misc/inpainter.c"),("detection and mask kernels","source/libtomo/prep/stripes_detect3d.c")],
 ["return values compared with brute-force definitions and range/locality monitors"])

p("C16","Stripe removal corrects stripes by the published algorithms",
 "Each stripe-removal method returns, for every sinogram, the result of its published algorithm for the given parameters (wavelet-Fourier, Titarenko, smoothing filter, sorting, filtering, fitting, large, dead, all, interpolation); data without stripes such as a constant sinogram come back unchanged up to the method's accuracy (Titarenko's method rescales them by its alpha), a constant detector-column offset is removed or reduced, and the result has the input's shape and finite values for finite input.",
 ["inputs","configurations"],"all sinogram stacks, heights, odd and even widths, all method parameters",
 "Tests run each method once on one data set with defaults.",
 ["source/tomopy/prep/stripe.py","source/libtomo/prep/stripe.c"],
 [("per-sinogram correction functions","source/tomopy/prep/stripe.py")],
 ["return values compared with independent reimplementations"])

p("C17","Phase retrieval applies the Paganin filter to every projection",
 "Single-material phase retrieval multiplies the spectrum of every projection by the documented low-pass filter for the given pixel size, distance, energy and regularisation: it is linear, maps a constant projection to the same constant, treats projections independently, keeps shape, and gives the result of the unpadded definition when padding is off and of the edge-padded definition when it is on.",
 ["inputs","configurations"],"all projections, odd and even sizes, parameters, padding on and off",
 "One test compares one stored result for one parameter set.",
 ["source/tomopy/prep/phase.py"],
 [("filter construction, padding and cropping","source/tomopy/prep/phase.py")],
 ["return values compared with a double-precision implementation"])

p("C18","Resampling, padding and sinogram conversions keep the data",
 "Down-sampling returns block means and up-sampling block copies along the chosen axis only (down-sampling an up-sampled array returns it); padding surrounds the unchanged data by the requested amount in constant or edge mode; converting a full-turn sinogram to a half-turn one places every column of both halves, blended only in the overlap; trimming returns the rows and columns of the requested region. No element of the retained region is altered, lost or moved elsewhere.",
 ["inputs","configurations"],"all shapes, axes, levels, pad widths and modes, overlaps and rotation sides",
 "Tests use single small arrays, one axis and one overlap.",
 ["source/tomopy/misc/morph.py","source/libtomo/misc/morph.c"],
 [("index arithmetic","source/tomopy/misc/morph.py, source/libtomo/misc/morph.c")],
 ["return values compared with direct index definitions"])

p("C19","Rotation-center finders recover the center of the data",
 "For projections of an object generated with a known rotation center, each center finder returns that center within its stated tolerance, wherever the center lies in the search range and whichever slice is asked for. The center-sweep tool writes, for every center of the requested range, one image named after that center that equals the reconstruction with that center.",
 ["inputs","configurations"],"objects, true centers, search ranges, tolerances, slices, half- and full-turn scans",
 "Tests check one data set with one center.",
 ["source/tomopy/recon/rotation.py"],
 [("metric evaluation and search","source/tomopy/recon/rotation.py")],
 ["returned centers versus the simulated truth","files written versus reconstructions"])

p("C20","Alignment and distortion tools apply the geometry they are given",
 "Shifting, scaling, edge-blurring and jittering projections, radial distortion correction and slit-box clipping move or weight image content by exactly the requested transformation: zero shift and identity distortion coefficients return the data unchanged, opposite shifts cancel in the interior, correcting one sinogram or one projection equals the matching part of correcting the whole stack, and the alignment routines recover shifts that were put in, and drift correction moves every frame back to where its slit corners lie on the reference.",
 ["inputs","configurations"],"images, shifts, distortion centers and coefficients, slice and projection indices",
 "Tests check two distortion calls on a constant-like image.",
 ["source/tomopy/prep/alignment.py"],
 [("interpolation and coordinate maps","source/tomopy/prep/alignment.py")],
 ["return values compared with coordinate-map references"])

p("C21","Calls leave no trace in process-wide state and history does not matter",
 "A call, successful or failing, leaves environment variables, the thread count of numexpr, the FFT backend, module-level tables and the numpy error and random state as it found them, and leaves no worker processes or threads behind. Therefore a call's result is the same whether it is the first in the process or follows any sequence of other calls, including failed ones.",
 ["histories","fault_sequences","configurations"],"all sequences of public calls with valid and invalid arguments",
 "Tests run each function once and do not compare process state before and after.",
 ["source/tomopy/recon/algorithm.py","source/tomopy/util/mproc.py","source/tomopy/prep/*.py","source/tomopy/misc/*.py"],
 [("save/restore of settings","source/tomopy/recon/algorithm.py:_dist_recon, source/tomopy/util/mproc.py:set_numexpr_threads, set_debug"),("module tables","source/tomopy/recon/algorithm.py:allowed_recon_kwargs")],
 ["snapshot of process state around every call","results in shuffled call sequences versus fresh-process results"])

p("C22","Invalid requests are rejected, valid ones are accepted",
 "Reconstruction refuses an unknown algorithm, an option the algorithm does not take, a missing required option, and per-slice center, angle or initial-guess arrays whose size does not match the data, by raising an exception before any computation; it accepts every documented algorithm, option and filter name, and the defaults documented for omitted options are the values used. Other functions likewise reject arguments outside their documented domain instead of returning a wrong array, and no argument, however wrong, makes a call access foreign memory or end the process.",
 ["inputs","configurations"],"all algorithms crossed with all option names, sizes and types of arguments",
 "Tests only make valid calls.",
 ["source/tomopy/recon/algorithm.py","source/tomopy/recon/wrappers.py","source/tomopy/misc/corr.py","source/tomopy/misc/morph.py","source/tomopy/prep/stripe.py"],
 [("validation code","source/tomopy/recon/algorithm.py:recon, _get_algorithm_args")],
 ["exception or result of each request compared with the documented table"])

p("C23","Simulation, noise and phantom helpers meet their definitions",
 "Noise generators return arrays of the input's shape whose deviation from the input is exactly the requested process (additive Gaussian with given mean and deviation, Poisson counts, ring and zinger patterns of given amount), reproducible for a fixed random seed; phantoms have the requested size, dtype and value range and are symmetric where their definition is; angle sets are evenly spaced over the requested interval; and optical propagation helpers follow their formulas.",
 ["inputs","configurations"],"all sizes, seeds and parameters",
 "Tests check phantom shapes and one propagation value.",
 ["source/tomopy/sim/project.py","source/tomopy/sim/propagate.py","source/tomopy/misc/phantom.py"],
 [("generator formulas","source/tomopy/sim/*.py, source/tomopy/misc/phantom.py")],
 ["return values compared with definitions under fixed seeds"])

p("C24","Ring removal corrects rings and only rings",
 "Ring removal subtracts from each reconstructed slice only a component that is averaged along circles around the given center and stays below the threshold; a constant slice comes back unchanged (for radial windows that fit the image), pixels outside the largest inscribed circle are untouched, a thin concentric ring below the threshold is reduced, and the result follows the documented polar-median and azimuthal-mean definition with the two boundary modes.",
 ["inputs","configurations"],"images of all sizes, centers inside the image, thresholds, ring widths, angular extents, both interpolation modes",
 "The ring-removal test compares nothing or a single stored array.",
 ["source/libtomo/misc/remove_ring.c","source/tomopy/misc/corr.py"],
 [("polar transform, median and mean filters","source/libtomo/misc/remove_ring.c")],
 ["returned slices compared with an independent implementation"])

p("C25","Accelerated CPU reconstructions are exact for every input and thread count",
 "tomopy.recon with accelerated=True on the CPU (ML-EM and SIRT by rotation) returns, for every slice, the result of the rotation-based update: rotate the current image to each projection angle, compare its row sums with the projection shifted to the slice's rotation center, spread the correction along the rows, rotate back, add up over the angles and normalise. This holds for all three interpolations, every grid size and shape (also other than the detector's), any number of iterations, and does not depend, beyond rounding, on the number of pool threads, the order in which they work, other calls running at the same time, worker processes or the other slices. Memory is accessed only inside the buffers and without data races, pixels that are not finite are ignored, the arguments are unchanged, no thread stays behind, and an unknown interpolation or a failing task is reported to the caller as an error, after which the same call works.",
 ["inputs","configurations","schedules","fault_sequences"],"all data, angles, centers, grids, interpolations, iteration counts, pool sizes, task orders, overlapping calls and failing tasks",
 "The upstream test reconstructs one data set on one grid with one pool size, and is skipped where OpenCV is missing, as it is in the tests' environment: no test runs this code there.",
 ["source/libtomo/accel","source/tomopy/util/extern/accel.py","source/tomopy/recon/algorithm.py"],
 [("rotation-based ML-EM and SIRT","source/libtomo/accel/cxx/mlem.cc, sirt.cc: cxx_mlem, mlem_cpu_compute_projection, cxx_sirt, sirt_cpu_compute_projection"),("rotation, normalisation, options","source/libtomo/accel/utils.hh, data.hh, common.hh"),("binding","source/tomopy/util/extern/accel.py: c_accel_mlem, c_accel_sirt")],
 ["returned volumes compared with an independent implementation","tasks and threads counted by the stand-in pool","sanitizer reports","exceptions"])

p("C26","Arrays in shared memory hold exactly the given data and stay valid",
 "Copying an array into shared memory, creating one there, recognising one and viewing its buffer keep shape, type and every element for every numeric type and memory layout; a complete shared array is passed on without a copy, and neither a part nor another layout of it nor ordinary memory is ever mistaken for one. What worker processes write there is exactly what the caller sees, distinct shared arrays never overlap, and an array returned by a parallel call keeps its values whatever is computed or released later. Type conversions and the Fourier-transform wrappers return exactly the converted and transformed data without changing their input.",
 ["inputs","histories"],"all shapes, types, layouts, views, and all sequences of creating, sharing, viewing, writing and dropping arrays, in one or several processes",
 "Tests convert a few arrays once; lifetime, aliasing and mistaken identity show only over histories of several arrays.",
 ["source/tomopy/util/dtype.py","source/tomopy/util/mproc.py","source/tomopy/util/misc.py"],
 [("shared buffers and their numpy views","source/tomopy/util/dtype.py: as_sharedmem, is_sharedmem, get_shared_mem, to_numpy_array, empty_shared_array")],
 ["elements of all live arrays compared with plain-memory shadows after every step","address ranges of live arrays","parent's view after worker writes"])

p("C27","Image files and numeric helpers do what they say",
 "Writing an image creates exactly the file named by folder, number and extension, makes missing folders, replaces an existing file of that name, leaves every other file alone, and reading it back gives every pixel with its type; the empirical distribution function rises from 0 to 1 over the sorted data, the Gaussian helper evaluates its formula, and the affine fit returns the least-squares transformation of the marker points.",
 ["inputs","histories"],"all image shapes and types, names, numbers and orders of writing; all data sizes and marker sets",
 "No test reads a written file back or evaluates these helpers.",
 ["source/tomopy/util/misc.py","source/tomopy/misc/npmath.py"],
 [("file naming and writing","source/tomopy/util/misc.py:write_tiff"),("numeric helpers","source/tomopy/misc/npmath.py")],
 ["contents of the output folder compared with a model after every write","return values"])
p("C28","Delegated reconstructions hand over and take back exactly the right data",
 "When a reconstruction is delegated (to the ASTRA, UFO or log-polar packages, to an accelerated reconstruction package, or to accelerated worker processes), every slice's sinogram is handed over exactly once per reconstruction, together with the angles, the rotation center, the grid size, the method and the options the caller gave or the documented defaults, and the volume computed for a slice appears at that slice of the result, whatever the number of workers, devices and concurrent calls and whatever their timing. The caller's data and options stay unchanged, every object created in the package is released again, no device gets two batches of one call at a time, and an error raised inside the package, its feeding thread or a worker reaches the caller.",
 ["inputs","configurations","schedules","fault_sequences"],"all data sizes, grids, centers and options, all numbers of slices, workers and devices, all timings of the devices' threads, and a failure at any package call",
 "The packages are not installed where the tests run, so no test executes this code.",
 ["source/tomopy/recon/wrappers.py","source/tomopy/recon/acceleration.py","source/tomopy/recon/algorithm.py"],
 [("ASTRA geometry, centers and GPU threads","source/tomopy/recon/wrappers.py: astra, astra_rec"),("log-polar batches and GPU table","source/tomopy/recon/wrappers.py: lprec, lpmultigpu"),("UFO task graph and feeding thread","source/tomopy/recon/wrappers.py: ufo_fbp, ufo_dfi, _process_data"),("implementation selection","source/tomopy/recon/acceleration.py"),("accelerated worker processes","source/tomopy/recon/algorithm.py: _dist_recon, _run_accel_algorithm")],
 ["log of every call into stand-ins for the packages","volumes the stand-ins return","live handles of the stand-ins"])

p("C29","GPU kernels agree with the CPU kernels",
 "Selecting a CUDA device for ML-EM or SIRT returns the same reconstruction as the accelerated CPU implementation within single-precision and interpolation accuracy, whatever the number of devices and streams.",
 ["inputs","configurations"],"all data and devices",
 "The CUDA sources are not compiled and no GPU is present in the tests' environment.",
 ["source/libtomo/accel/gpu"],
 [("CUDA kernels","source/libtomo/accel/gpu")],["not observable here"])
import os
with open('/verif/properties.jsonl','w') as f:
    for q in P: f.write(json.dumps(q)+"\n")
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for q in P:
    jsonschema.validate(q,s)
    if q['statement'].count('. ')>2: print(q['id'],'too many sentences')
print(len(P))
