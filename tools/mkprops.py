#!/usr/bin/env python3
"""Source of /verif/properties.jsonl: one entry per property. Run to regenerate."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=observe, hook_needed=None)))

F="internal/fits/"; O="internal/ops/"
NOTEST="No existing test touches this code; "

p("C01","FITS files of every sample format decode to the right pixels",
  "Reading a FITS image, plain or gzip-compressed, yields for every supported sample format (8/16/32/64-bit integer, 32/64-bit float) the pixels BZERO+BSCALE*stored in file order, to float32 precision of the two terms, together with the header's axis lengths, exposure and keyword values, and the minimum, maximum and mean of those pixels. "
  "The result does not depend on how the underlying stream splits its bytes over reads or when it reports end of file, nor on how the FITS standard lets numbers and strings be spelled in the header (exponent letters, optional decimal point, unsigned-integer offsets beyond 32 bits, doubled quotes).",
  ["inputs","schedules"],"every header spelling, sample format, image size and chunking of the input stream",
  NOTEST+"the chunkings of a stream and the bit patterns of six sample formats are unbounded.",
  [F+"read.go"],[("buffered decoder with leftover bytes",F+"read.go readInt16Data..readFloat64Data"),("header regexp",F+"read.go compileRE")],
  ["pixels, axes, exposure, header maps and basic stats of the loaded image"])
p("C02","Saving as FITS and loading back restores the image",
  "Saving an image as FITS (plain or gzip, to a new file or over an existing file of any size) and loading it back restores the dimensions, every pixel value exactly (NaN becomes 0), the exposure, and the boolean, integer, float and short string header entries of the image. "
  "The file written is standard conforming: 80-character cards with the mandatory keywords first and END last, header and data padded to 2880-byte blocks, big-endian float data, and nothing else in the file.",
  ["inputs","histories"],"every image, header content, file name suffix and previous content of the target file",
  NOTEST+"round-tripping must hold for every float value and for any history of what the file contained before.",
  [F+"write.go",F+"read.go",O+"operator.go"],[("header/card writer",F+"write.go Write"),("array writer",F+"write.go writeFloat32Array")],
  ["bytes of the file written","image loaded back"])
p("C03","Damaged or truncated input files give errors, never crashes or bad frames",
  "Loading a FITS file that is truncated at any byte, corrupted in its header or compressed stream, or that hits a read error, terminates and either reports an error or returns an image whose pixel array matches its declared axes and contains every declared pixel. "
  "It never crashes the process, and it never reports success for a file whose pixel data is incomplete.",
  ["inputs","fault_sequences"],"every truncation point, header mutation and read fault position",
  NOTEST+"each byte offset is a separate fault point.",
  [F+"read.go",F+"tiff16.go",O+"operator.go"],[("error returns of the readers",F+"read.go Read")],
  ["error or image returned by the load operator"])
p("C04","A failed write is reported, a successful save means a complete file",
  "When creating or writing an output file (FITS plain or gzip, TIFF, JPEG, statistics) fails at any byte because the storage is full or the path cannot be created, the save step returns an error to the caller instead of success. "
  "When it returns success, the complete file is on disk.",
  ["fault_sequences","crash_points"],"every output format and every byte position at which the storage runs full",
  NOTEST+"failures must be injected at every position of the output stream.",
  [F+"write.go",F+"writejpg.go",F+"tiff16.go",O+"operator.go"],[("error propagation of writers",O+"operator.go OpSave.Apply")],
  ["error returned by the save operator","size and content of the file on disk"])
p("C05","TIFF and JPEG exports map pixel values to sample values exactly",
  "An exported 16-bit TIFF or 8-bit JPEG has the image's width, height and channel order, and every sample equals ((v-min)/(max-min)) clamped to [0,1], raised to 1/gamma and scaled to the sample range, within one quantization step for TIFF and JPEG coding loss for JPEG, NaN giving black; min and max are those of the selected export range. "
  "Loading an 8-bit or 16-bit, gray or RGB TIFF yields every pixel's sample value in the right position and channel plane; an exported TIFF therefore loads back as its own samples.",
  ["inputs","configurations"],"every image content, export range, gamma and TIFF colour model",
  NOTEST+"value mapping must hold for all pixel values and colour models.",
  [F+"tiff16.go",F+"writejpg.go",O+"operator.go"],[("sample mapping",F+"tiff16.go"),("export mode selection",O+"operator.go OpSave.Apply")],
  ["decoded exported file","loaded image"])
p("C06","Each stacked pixel equals the mode's definition over its valid samples",
  "For every stacking mode (median, mean, sigma clip, winsorized sigma clip, MAD sigma clip, linear fit, and automatic selection by frame count) and, where the mode supports it, every weighting (none, exposure, inverse noise, inverse HFR), each output pixel equals that mode's defined statistic of exactly the non-NaN values of that pixel in all input frames, each value keeping the weight of its own frame; a pixel without valid values takes the configured fallback, and a pixel with valid values is never NaN. "
  "The output exposure is the sum of the input exposures, and the result does not depend on image size, batching over threads or the number of CPUs; invalid requests (no frames, mismatching sizes, weights for MAD sigma clipping) return an error.",
  ["inputs","configurations","schedules"],"all frame sets, NaN patterns, outliers, sigmas, weights, image sizes and thread counts",
  NOTEST+"pixelwise statistics must hold for every combination of values.",
  [O+"stack/stack.go"],[("per-pixel stackers",O+"stack/stack.go Stack*"),("work split over goroutines",O+"stack/stack.go Apply")],
  ["stacked image","logged clip counts"])
p("C07","Stacking is order-independent, scale-equivariant and bounded by its inputs",
  "Reordering the input frames (with their weights) changes no stacked pixel beyond float rounding, adding a constant to or multiplying all frames by a positive constant shifts or scales the stack accordingly, and stacking identical frames returns that frame. "
  "Every stacked pixel lies between the smallest and largest valid input value of that pixel, and with wide sigmas the clipping modes agree with the plain (weighted) mean.",
  ["inputs","configurations"],"all frame sets, permutations, offsets, factors and modes",
  NOTEST+"a metamorphic relation quantifies over pairs of executions.",
  [O+"stack/stack.go"],[("per-pixel stackers",O+"stack/stack.go Stack*")],["stacked images of related inputs"])
p("C08","Batched stacking uses every frame exactly once and stays within memory",
  "When frames do not fit in memory, batched stacking assigns the frames to batches at random and processes every input frame in exactly one batch for any number of frames, image size, thread count and memory limit, and combines the batch results into the mean weighted by the number of frames per batch, with the exposure summed over all frames. "
  "No batch is empty, the frames of one batch plus working copies fit the configured memory, and if no batching fits the memory limit, or any frame or batch fails, an error is returned instead of a partial stack.",
  ["inputs","configurations","histories","fault_sequences"],"all frame counts, sizes, memory limits and random batch assignments",
  NOTEST+"partitioning depends on five parameters and a random permutation.",
  [O+"stack/stackbatches.go",O+"stack/stack.go"],[("partition",O+"stack/stackbatches.go partition"),("incremental stack",O+"stack/stack.go StackIncremental")],
  ["trace of frame ids seen per batch","result image"])
p("C09","Parallel evaluation runs each step once, in order, within the thread limit",
  "Evaluating a set of image computations in parallel runs each of them exactly once, never more than the configured number at the same time, and returns only after all have finished, with results in input order and skipped (empty) results removed. "
  "If any fail, every distinct error is reported and none is lost, and a failing or skipped computation never prevents the others from completing or makes downstream per-image steps crash.",
  ["schedules","fault_sequences","inputs"],"all interleavings, failure subsets, skip subsets and thread limits",
  NOTEST+"interleavings cannot be enumerated by fixed tests.",
  [O+"operator.go"],[("semaphore channel + error channel",O+"operator.go MaterializeAll"),("promise chaining",O+"operator.go OpUnaryBase.MakePromise")],
  ["event trace of start/finish per computation","returned images and error"])
p("C10","Parallel pipelines are free of data races and reproducible",
  "Running complete processing pipelines (load, calibrate, bad pixels, debayer, debanding, binning, star detection, background, statistics export, reference selection, histogram matching, alignment, stacking, saving) with many threads performs no unsynchronized conflicting memory accesses. "
  "Given deterministic estimators, the result files are identical for every number of threads and every scheduling of the work.",
  ["schedules","configurations"],"all interleavings of the worker goroutines",
  NOTEST+"races depend on scheduling.",
  [O+"operator.go",O+"ref/refframe.go",O+"ref/exportstats.go",O+"post/postprocess.go",O+"stack/stack.go",O+"pre/preprocess.go"],
  [("mutexes in context-sharing operators",O+"ref/refframe.go applySingle")],["race detector reports","result images for 1..N threads"])
p("C11","JSON job descriptions reproduce the configured pipeline exactly",
  "Serializing any pipeline of operators to JSON and parsing it back yields a pipeline with the same operators, order, nesting and parameter values, that processes images identically; missing parameters take the documented defaults. "
  "Each parsed operator uses its own parameters when it runs, independent of other operators parsed before or after it, and unknown operator types or malformed JSON give an error.",
  ["programs","inputs"],"all operator sequences, parameter values and omissions",
  NOTEST+"the space of job descriptions is unbounded.",
  [O+"operator.go",O+"pre/preprocess.go",O+"stretch/stretch.go",O+"hsl/hsl.go",O+"rgb/rgb.go",O+"stack/stackbatches.go"],
  [("operator factories and UnmarshalJSON with defaults",O+"operator.go OpSequence.UnmarshalJSON")],["parsed operators' re-serialization","images produced by original and parsed operator"])
p("C12","Jobs can only load files inside the working directory tree",
  "Whatever file name or wildcard pattern a job specifies for images to load, dark, flat or reference frames, no file outside the current working directory tree named by an absolute path or through parent-directory components is ever opened. "
  "Refused single files give an error, refused wildcard matches are skipped, and every allowed match is loaded exactly once, in name order within a pattern, with consecutive ids.",
  ["inputs","programs"],"all path strings and patterns",
  NOTEST+"path strings are unbounded.",
  [O+"operator.go",O+"pre/preprocess.go",O+"ref/refframe.go"],[("path filter",O+"operator.go isPathAllowed")],["files opened, as seen by content of loaded images","errors"])
p("C13","Dark and flat calibration computes (light-dark)*scale/flat for every frame",
  "With a dark frame every light pixel has the corresponding dark pixel subtracted; with a flat frame every light pixel is divided by the flat pixel normalised by the flat's maximum (light*max/flat, pixels whose flat value is not positive are kept), and with both, dark first. "
  "The same calibration applies to all frames whatever their number, order and concurrency, the calibration frames are loaded once and not modified, and frames whose dimensions mismatch are rejected with an error every time.",
  ["inputs","schedules","configurations"],"all frame contents, sizes and concurrent orders",
  NOTEST+"must hold for every frame of a concurrent run.",
  [O+"pre/preprocess.go",F+"pixelops.go"],[("calibration frames cached in context under lock",O+"pre/preprocess.go OpCalibrate")],["calibrated pixels","errors"])
p("C14","Bad pixel removal replaces exactly the outliers by their local median",
  "Cosmetic correction replaces a pixel if and only if its difference from its local neighbourhood median lies below -sigmaLow or above +sigmaHigh times the spread of these differences, and then by that local median; all other pixels stay bit-identical, and the count reported equals the number replaced. "
  "For colour-filter-array images the neighbourhood consists of same-colour pixels only; in monochrome images border pixels, which have no full 3x3 neighbourhood, are kept.",
  ["inputs","configurations"],"all images and hot/cold pixel patterns, sizes and sigmas",
  "Existing tests cover only neighbour offsets of the Bayer variant; outlier decisions over arbitrary images are not sampled.",
  [O+"pre/badpixels.go",O+"pre/badpixels_bayer.go",O+"pre/preprocess.go","internal/median/median3x3.go"],
  [("median difference statistics and thresholding",O+"pre/badpixels.go BadPixelMap")],["pixels before and after"])
p("C15","Debayering keeps native pixels and interpolates the others",
  "Debayering one colour channel returns, for each of the four filter arrays, an image in which pixels with a native sample of that colour carry it unchanged and every other pixel is the mean of the adjacent native samples of that colour (at the border, a weighted mean of those that remain); the result is aligned to the first complete RGGB cell and has even dimensions, and image metadata and statistics describe the new image. "
  "A frame of one constant colour value per channel debayers to a constant image, and unknown channels or filter arrays give an error.",
  ["inputs","configurations"],"all image sizes, contents, colour filter arrays and channels",
  "Existing tests check a few fixed matrices in the interior; sizes, edges and metadata are not covered.",
  [O+"pre/debayer.go",O+"pre/preprocess.go"],[("channel interpolation",O+"pre/debayer.go")],["debayered image, stats and axes"])
p("C16","Sorting, selection and medians agree with a sorted reference",
  "Sorting returns the input values in ascending order, selection returns the k-th smallest value and leaves the data a permutation of itself, and medians equal the middle (or the mean of the two middle) sorted values, for every input without NaN. "
  "The 3x3 median filter, gathered medians at borders and corners, and the vectorised kernels for median, minimum/mean/maximum, variance and noise agree with their portable versions for every array length and alignment and never touch memory outside their arrays.",
  ["inputs","configurations"],"all arrays, lengths, widths, alignments and duplicates",
  "Existing tests sort a handful of arrays; lengths, duplicates, adversarial orders, edges and out-of-bounds accesses of assembly code are not covered.",
  ["internal/qsort/qsort.go","internal/median/median3x3.go","internal/median/gather.go","internal/stats/stats_amd64.go","internal/stats/noise_amd64.go"],
  [("partitioning selection","internal/qsort/qsort.go"),("AVX2 kernels","internal/median/median3x3_amd64.go")],["returned values and permuted arrays","guard pages around arrays"])
p("C17","Image statistics always describe the current pixels",
  "The minimum, maximum, mean, standard deviation and noise reported for an image equal those of its pixel data within float accuracy, whatever the order in which they are queried. "
  "After any processing step that changes pixel values or dimensions, the image's statistics (including background location and scale) are those of the new pixels, never stale values from before.",
  ["inputs","histories"],"all images and sequences of processing steps and queries",
  NOTEST+"staleness depends on the history of operations.",
  ["internal/stats/stats.go",F+"pixelops.go",O+"pre/preprocess.go"],[("lazy caches with Clear","internal/stats/stats.go")],["reported statistics vs. reference over pixel data"])
p("C18","Location and scale estimators find the background level and spread",
  "Each location/scale estimator (mean/stddev, median/MAD, IKSS, sigma-clipped median and Qn, histogram peak) terminates for every image without crashing and, for images made of a Gaussian background plus a small fraction of bright or dark outliers, the robust ones return its level and spread within a small tolerance; mean/stddev and IKSS match their exact definitions, median/MAD theirs up to the error of sampling large images, and the histogram estimator reports the fullest of its bins and the half width around it that holds 68.27% of the pixels. "
  "Estimates are equivariant under adding a constant and multiplying by a positive factor, and constant images yield that constant and zero spread.",
  ["inputs","configurations"],"all images; background level, spread, outlier fraction and image size",
  NOTEST+"statistical accuracy must hold over random images.",
  ["internal/stats/stats.go","internal/stats/histogram.go"],[("estimators","internal/stats/stats.go")],["location and scale reported"])
p("C19","Star detection finds the real stars and measures them correctly",
  "On images of stars more than twice a detection radius apart on a noisy background, every sufficiently bright star away from the border is reported exactly once with its centroid within a fraction of a pixel, half-flux radius and mass close to the true ones, no reported star is noise or, with bad pixel rejection switched on, an isolated hot pixel, and the list is ordered by brightness. "
  "Detection leaves pixels unchanged, terminates without crashing on any image (constant, tiny, saturated, stars at the border, any width), and reported stars lie inside the image with finite positive measurements and do not overlap.",
  ["inputs","configurations"],"all star fields, image sizes, widths and detection parameters",
  NOTEST+"star fields are unbounded.",
  ["internal/star/findstars.go","internal/star/qsort.go",O+"pre/preprocess.go"],[("threshold, bad pixel rejection, mean shift, overlap filter","internal/star/findstars.go FindStars")],["star list vs. rendered ground truth"])
p("C20","Alignment recovers the true transformation between star fields",
  "Given a reference star list and the star list of a shifted, rotated and scaled view of the same field (camera moved, or binned differently) with measurement jitter, missing and spurious stars, alignment returns the true transformation with residual at jitter level; applying, inverting and solving transformations agree with affine algebra, and coordinate trees return the true nearest neighbours. "
  "Frames that do not match the reference are reported with a residual above threshold and skipped, and too few stars, collinear stars or axis-parallel triangles never crash or produce a NaN transformation reported as success.",
  ["inputs","configurations"],"all star fields, transformations, jitter and dropout patterns",
  NOTEST+"the space of point sets is unbounded.",
  ["internal/star/align.go","internal/star/coord.go","internal/star/kdtree2.go","internal/star/kdtree3p.go",O+"post/postprocess.go"],
  [("triangle matching and optimisation","internal/star/align.go Align")],["transform and residual"])
p("C21","Projection resamples frames bilinearly with the given transformation",
  "Projecting a two-dimensional frame with a transformation yields an image of the requested size in which each pixel is the bilinear interpolation of the source at the inversely transformed position, and the out-of-bounds value where that position lies outside the source (positions on the last row or column, which have no further neighbour, may be filled as well). "
  "Identity and whole-pixel shifts reproduce source pixels exactly in the interior, dimensions, id and exposure are kept, non-invertible transformations give an error, and statistics describe the new pixels.",
  ["inputs","configurations"],"all images, transformations, target sizes and fill values",
  NOTEST+"positions and transformations are continuous.",
  [F+"project.go",O+"post/postprocess.go"],[("inverse mapping and bilinear sampling",F+"project.go Project")],["projected pixels"])
p("C22","Background extraction subtracts a smooth background and preserves objects",
  "For an image made of a planar background gradient plus noise, stars and masked objects, the automatically extracted background follows the true gradient within noise tolerance, and after subtraction the background level is flat while star signal is kept. "
  "Extraction terminates without crashing for any grid size, image size, clip count and star distribution, the subtracted and saved background are the same, and output dimensions are unchanged.",
  ["inputs","configurations"],"all gradients, star fields, grid sizes and image sizes",
  NOTEST+"gradients and grids vary freely.",
  [O+"pre/background.go",O+"pre/preprocess.go"],[("grid cell fitting, masking and interpolation",O+"pre/background.go")],["background-subtracted pixels","saved background"])
p("C23","Debanding removes row or column offsets and nothing else",
  "Horizontal (vertical) debanding of a two-dimensional image with a per-row (per-column) offset makes the configured percentile of each row (column) follow the moving-window level, changing every pixel of one row (column) by the same factor (lines whose levels have no positive ratio stay as they are); images without banding stay unchanged within noise. "
  "It terminates without crashing or producing NaN or infinite pixels for any percentile, window, sigma and image content.",
  ["inputs","configurations"],"all images, percentiles, windows and sigmas",
  NOTEST+"band patterns vary freely.",
  [O+"pre/banding.go"],[("row/column percentile normalisation",O+"pre/banding.go")],["pixels before and after"])
p("C24","Histogram matching gives every frame the reference's background",
  "After histogram matching, each frame's location (and, where selected, scale) equals that of the reference frame, and the pixel mapping applied is the single affine or black-point mapping the mode defines, for every pixel of the frame; black-point matching keeps pixels non-negative, and modes that need a positive location fail with an error when there is none. "
  "All frames of a run are matched to the same reference values, whichever frame is processed first and however many run concurrently, and matching the reference frame itself leaves it unchanged.",
  ["inputs","schedules","configurations"],"all frames, modes and processing orders",
  NOTEST+"order dependence needs concurrent executions.",
  [O+"post/postprocess.go",F+"pixelops.go",O+"ref/refframe.go"],[("affine matching",F+"pixelops.go MatchHistogram")],["pixels and stats before and after"])
p("C25","RGB combination and colour spaces keep colours intact",
  "Combining channel images yields a colour image whose planes are the inputs in order, and conversion to the perceptual colour space and back restores every in-gamut colour within tolerance, leaving neutral colours neutral and keeping hue in [0,360), chroma and luminance in range. "
  "A luminance channel beyond [0,1] is scaled into that range; applying it replaces luminance while keeping hue; colour balancing makes the darkest block and the average star colour neutral; mismatching channel sizes or counts give an error.",
  ["inputs","configurations"],"all colours, channel images and balance parameters",
  NOTEST+"the colour cube is continuous.",
  [O+"rgb/rgb.go",F+"rgb.go",F+"pixelops.go",F+"oklab.go"],[("colour conversions",F+"pixelops.go"),("channel combination",F+"rgb.go")],["pixels of combined and converted images"])
p("C26","Colour operators change only the colours and channel they select",
  "Saturation, selective saturation, hue rotation, green-noise removal, background neutralization and luminance operators apply their defined per-pixel mapping exactly to the pixels in the selected hue or luminance range (including ranges that wrap around 360 degrees) and leave all other pixels and the other channels unchanged. "
  "Neutral parameter values are the identity, and outputs stay finite and in their channel's range.",
  ["inputs","configurations"],"all pixels, hue ranges, thresholds and strengths",
  NOTEST+"per-pixel mappings over continuous colours.",
  [O+"hsl/hsl.go",F+"pixelops.go"],[("per-pixel colour functions",F+"pixelops.go")],["pixels before and after"])
p("C27","Tone curves follow their formula, keep order, range and end points",
  "Range normalisation, gamma, partial gamma, midtones, black point shift and iterative stretch map every pixel by one monotonically non-decreasing function of its value given by the operator's formula, keep values in [0,1] inside [0,1], and fix the end points the formula fixes. "
  "Neutral parameters leave the image unchanged, and iterative stretching terminates with the background at the requested location when it is reachable.",
  ["inputs","configurations"],"all pixel values, images and curve parameters",
  "Existing tests only cover the Gaussian blur kernel and unsharp mask of fixed images.",
  [O+"stretch/stretch.go",F+"pixelops.go"],[("pixel functions",F+"pixelops.go")],["pixels before and after"])
p("C28","Blur and unsharp masking are correct normalised convolutions",
  "Gaussian blurring equals separable convolution with a normalised, symmetric, truncated Gaussian kernel with mirrored borders for every image size and sigma, keeps constant images constant and total brightness unchanged, and is confined to the image. "
  "Unsharp masking changes only pixels at or above the threshold, by gain times the difference to the blurred image, clipped to the image's own value range.",
  ["inputs","configurations"],"all images, sizes (also smaller than the kernel), sigmas, gains and thresholds",
  "Existing tests use single-peak odd-sized images larger than the kernel and three sigmas.",
  [O+"stretch/usm.go",O+"stretch/stretch.go",O+"hsl/hsl.go"],[("kernel and convolution",O+"stretch/usm.go")],["pixels before and after"])
p("C29","Reference selection picks the defined frame once for all frames",
  "The reference chosen is the frame with the highest star count over half-flux radius, the frame with background location closest to the median, the frame with the given id, or the given file, as configured, and is the same for all frames and batches of a run whatever the thread interleaving. "
  "Every input frame is passed on exactly once and unchanged in its own position even if other frames were skipped before, frames are evaluated once, and if no reference can be selected every frame reports an error rather than crashing.",
  ["inputs","schedules","histories"],"all frame sets, skip patterns, modes and interleavings",
  NOTEST+"which goroutine computes the reference is schedule dependent.",
  [O+"ref/refframe.go",O+"ref/filter.go"],[("mutex-guarded first evaluation",O+"ref/refframe.go applySingle")],["frames passed downstream","context reference values"])
p("C30","NxN binning averages blocks and keeps metadata",
  "NxN binning yields an image of floor(width/N) x floor(height/N) pixels, each the mean of its NxN source block, with id, file name and exposure kept and statistics describing the binned pixels. "
  "Binning by 0 or 1 leaves the image unchanged, and scale/offset steps map each pixel v to v*scale+offset.",
  ["inputs","configurations"],"all image sizes, contents, N, scales and offsets",
  NOTEST+"sizes not divisible by N and stats freshness are not sampled.",
  [F+"fits.go",O+"pre/preprocess.go",F+"pixelops.go"],[("block average",F+"fits.go NewImageBinNxN")],["binned image"])
p("C31","Statistics export lists every processed frame exactly once, completely",
  "The exported statistics file contains exactly one row per frame that passed the export step, with that frame's id, minimum, mean, maximum, location, scale, star count and half-flux radius, for every number of frames, batches, threads and skipped frames. "
  "When the run has finished the file is complete and well-formed on disk.",
  ["schedules","inputs","histories"],"all frame counts, interleavings and skip patterns",
  NOTEST+"rows are written concurrently.",
  [O+"ref/exportstats.go",O+"stack/stackbatches.go"],[("mutex-guarded writer, footer on last frame",O+"ref/exportstats.go Apply")],["parsed statistics file"])
p("C32","Saved frames go to the file named by pattern and frame id",
  "Saving frames with a file name pattern containing an integer placeholder such as %d or %04d writes one file per frame, named by expanding the placeholder with the frame's id, so that frames with different ids never overwrite each other; the suffix selects format and compression. "
  "Saving passes the frame on unmodified, an empty pattern saves nothing, and unsupported suffixes or dimensions give an error.",
  ["inputs","schedules"],"all patterns, ids and concurrent saves",
  NOTEST+"patterns and ids vary freely.",
  [O+"operator.go"],[("pattern expansion",O+"operator.go OpSave.Apply")],["files created"])

p("C34","The job server runs each posted job as if it were alone and survives every job",
  "Each job posted to the server leaves the same result files as the same job run alone, whatever other jobs the server executes at the same time, and a job that fails reports its error in the response. "
  "Malformed job descriptions are refused with status 400 without running anything, no job makes the server crash, hang or stop answering, and files are served only from the tree of the server's working directory.",
  ["schedules","inputs","histories"],"all job descriptions, frame contents and mixes of concurrent requests",
  NOTEST+"the server has no test at all.",
  ["internal/rest/serve.go",O+"operator.go"],[("one context per job","internal/rest/serve.go postJob")],["HTTP responses","result files of jobs"])

p("C35","The server confined to a directory and user cannot reach anything else",
  "Starting the server with -chroot DIR (absolute or relative, however spelled) makes DIR its root and working directory: file requests and jobs reach all files inside and none outside, not through links, parent directories or absolute names, neither for reading nor for writing. "
  "With -setuid ID every thread runs with that real, effective and saved user id and without capabilities before the first request is answered. If the directory or user cannot be set, or the port is taken, the program ends with an error status and never answers a request.",
  ["inputs","faults"],"all spellings of the directory, user ids, missing privileges, and requests and jobs of clients",
  NOTEST+"confinement must hold against every request and for every spelling of the options.",
  ["internal/rest/sandbox_unix.go","cmd/nightlight/main.go"],[("chroot, chdir and setuid before listening","internal/rest/sandbox_unix.go MakeSandbox")],["HTTP responses","/proc of the serving process","files on disk"])

p("C33","The command line runs the documented pipeline with its flags, reports failure",
  "For every combination of flags, the stats, stack, stretch and rgb commands leave exactly the files of the documented pipeline: the given input files, and no others, go through the documented steps in order with each flag's value or its default, and results are saved under the given names or those derived from the output name. "
  "A job file run with the run command gives the same files as the command it describes, the log file is written, and the exit status is zero if and only if the command succeeded.",
  ["inputs","configurations"],"all commands, flag combinations and sets of input files",
  NOTEST+"the program itself has no test at all.",
  ["cmd/nightlight/main.go"],[("one operator sequence per command","cmd/nightlight/main.go main")],["exit status","files created by the program"])

p("C36","Pipelines built in the web editor run as shown on the server behind the page",
  "The page delivered by the server loads, offers only defined blocks, and every block works. Pressing Run sends one job to the server that delivered the page, whatever its port, which accepts it and runs exactly the enabled blocks, in order and nested as shown. "
  "Each operator gets the value shown by each control of its block - the meaning of the selected entry for lists, numbers and texts exactly as displayed - and its defaults for everything the block does not show; disabled and empty parts have no effect. The answer of the server is shown completely as log.",
  ["inputs"],"all block pipelines, nestings, control settings and chunkings of the answer",
  NOTEST+"no test touches the page or its scripts.",
  ["web/js/blocks.js","web/js/codegen.js","web/js/toolbox.js","web/index.html"],[("one generator per block type","web/js/codegen.js"),("controls and their values","web/js/blocks.js")],["job description posted by the page","parsed operators"])

p("C37","Poor frames are left out and leave no trace in the result",
  "With a minimum number of stars configured, exactly the frames with at least that many stars go on from the filter step, unchanged and in order; a minimum of zero or less passes every frame. "
  "Frames left out, there or because they could not be aligned well enough, have no effect on the rest of the run: references, aligned frames, stack, total exposure and exported rows are the same as in a run over the remaining frames alone, and if no frame remains there is an error or no result, never a crash or a made-up image.",
  ["inputs","configurations"],"all star counts, thresholds, positions of the poor frames and following steps",
  NOTEST+"which frames are left out, and in which positions, varies freely.",
  [O+"ref/filter.go",O+"operator.go",O+"post/postprocess.go",O+"stack/stack.go"],[("star count threshold",O+"ref/filter.go Apply"),("removal of missing frames",O+"operator.go RemoveNils")],["frames passed on","stack and exported rows of runs with and without poor frames"])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P), "properties")
