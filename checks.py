"""The checks: which harness decides which property, how it is built and run.
phases: builds the harness is run in; "plain", "race" (Go race detector)."""

NOT_APPLICABLE = {}

CHECKS = {
 "C01": dict(technique="runtime monitoring: reference decoder as oracle over generated files and hostile readers",
   note="Every load is compared with an independent FITS decoder, over all sample formats, header spellings and read chunkings generated; sampled, not exhaustive."),
 "C02": dict(technique="runtime monitoring: file-format checker and round-trip oracle over generated images and file histories",
   note="An independent checker parses each file written card by card; images, headers and previous file contents are generated; sampled."),
 "C03": dict(technique="runtime monitoring: fault injection at every byte (truncation, read faults, mutations) with crash/hang/short-data monitor", level="fault_enumeration",
   note="All truncation points and read fault positions of the base files are enumerated; header and stream mutations are sampled."),
 "C06": dict(technique="runtime monitoring: per-pixel reference oracle over generated frame sets",
   note="Each output pixel of generated stacks is compared with an independent float64 definition of the mode; pixels with a clip decision within float rounding are only range-checked."),
 "C07": dict(technique="runtime monitoring: metamorphic oracle over pairs of executions",
   note="Relations between generated pairs of stacks; pixels with a clip decision within float rounding are only range-checked."),
 "C08": dict(technique="runtime monitoring: probe operator records the batch trace, offline exactly-once and conservation checker", level="fault_enumeration",
   note="All combinations of frame counts up to 44 and about 24 memory/image sizes and 5 CPU counts; every frame/batch failure position of sampled runs."),
 "C16": dict(technique="runtime monitoring: sorted-reference oracle, guard pages and canaries around arrays given to assembly code",
   note="All arrays up to length 7 over four values, all permutations up to 7 and all 0/1 windows of the median network are executed; longer arrays and shapes are sampled. Kernels run flush against inaccessible pages, with and without AVX2."),
 "C18": dict(technique="runtime monitoring: exact and statistical oracles over generated and hostile images, metamorphic pairs",
   note="The estimators sample randomly, so accuracy is judged with tolerances of many standard errors; all images of up to 4 pixels over 3 values are run, the rest is sampled."),
 "C27": dict(technique='runtime monitoring: per-pixel formula oracle, order and range monitor over generated images',
   note="Each pixel is compared with the operator's formula in float64; images and parameters are sampled. Final background of the iterative stretch is judged with tolerance."),
 "C28": dict(technique='runtime monitoring: measured impulse response and reference convolution oracle',
   note='Kernels of 18 sigmas and 12 shapes in all combinations, including images smaller than the kernel; pixel contents are sampled.'),
 "C30": dict(technique='runtime monitoring: per-pixel block mean oracle',
   note='All sizes up to 9x9 with all bin sizes are run, larger ones sampled.'),
 "C13": dict(technique='runtime monitoring: per-pixel reference oracle over concurrent calibration runs, Go race detector', phases=["plain","race"],
   note='Frames, sizes, thread counts and faults are sampled; each pixel of each run is compared with the formula. Runs again under the race detector.'),
 "C14": dict(technique='runtime monitoring: per-pixel reference decision oracle (independent median filter and threshold)',
   note='Single outliers at every position of all images up to 7x7 for all filter arrays, other contents sampled; differences within float rounding of the threshold may go either way.'),
 "C15": dict(technique='runtime monitoring: per-pixel reference interpolation oracle',
   note='All sizes up to 10x10 with all channels and filter arrays, larger ones sampled. Border pixels, where the code weights the remaining neighbours, are only range-checked.'),
 "C23": dict(technique='runtime monitoring: measured per-line factors against a reference of the moving percentile level; hostile contents',
   note='Images, windows, percentiles and sigmas are sampled; where rounding may select a neighbouring percentile or the threshold hits a pixel value, the factor is compared with a wider tolerance.'),
 "C22": dict(technique='runtime monitoring: measured background against the rendered truth, saved against subtracted background, hostile inputs',
   note='Gradients, grids, stars and objects are sampled; accuracy is judged with tolerances from noise level and slope per cell.'),
 "C20": dict(technique='runtime monitoring: generated truth as oracle for recovered transformations, brute-force tree oracle, rendered frames through the alignment step, hostile star lists, Go race detector', phases=["plain","race"],
   note='Star fields, transformations, jitter and dropouts are sampled; accuracy is judged with a tolerance from the jitter. Known finding: unrelated frames of about ten stars or fewer are reported as aligned.'),
 "C21": dict(technique='runtime monitoring: per-pixel bilinear reference oracle over generated images and transformations',
   note='Images, sizes, fill values and transformations are sampled; positions within float32 error of the source border may be filled or interpolated.'),
 "C24": dict(technique="runtime monitoring: measured pixel mapping against the mode's mapping to the reference values, concurrent runs with injected delays, Go race detector", phases=["plain","race"],
   note='Frames, modes, orders and delays are sampled; robust estimators sample randomly and are judged with tolerance, mean and standard deviation exactly.'),
 "C19": dict(technique='runtime monitoring: rendered truth as oracle for star lists, plausibility monitor on hostile images',
   note='Star fields, hot pixels, noise levels and detection settings are sampled; on arbitrary images each list is checked for order, separation, position and mean half-flux radius.'),
 "C25": dict(technique='runtime monitoring: combination, HSLuv conversion, luminance and balance compared with an independent float64 colour model',
   note='planes, exposure and stars of combinations; hue/saturation/luminance and round trip of in-gamut, neutral, axis-hue and extreme colours against an own HSLuv implementation; balance judged on the darkest area and the mean colour of the selected stars; refused counts, sizes and parameters'),
 "C26": dict(technique="runtime monitoring: every pixel of every channel compared with the operator's mapping in float64",
   note='selected, unselected and boundary pixels of neutralization, saturation gamma, selective saturation, hue rotation, SCNR and all luminance operators, wrapping hue ranges, neutral parameters, refused images'),
 "C17": dict(technique='runtime monitoring: statistics of every image that leaves an operator compared with a float64 recomputation from its pixels',
   note='Every operator that changes pixels is run with random subsets of the statistics cached before; buffers of all small lengths and alignments; sampled values.'),
 "C04": dict(technique='runtime monitoring: fault injection (file size limit at every byte position, unwritable paths, full devices) with completeness monitor',
   note='Every byte position of a small file of each format is enumerated as the point where the storage runs full; larger files at sampled positions. Errors of close() itself cannot be injected here.'),
 "C05": dict(technique='runtime monitoring: exported files decoded and compared sample by sample with a float64 mapping; TIFF files of an independent encoder loaded',
   note='Contents, ranges, gammas and TIFF variants are generated; JPEG judged on blocks of equal pixels within coding loss; sampled.'),
 "C32": dict(technique='runtime monitoring: files on disk after serial and concurrent saving compared with the expansion of the pattern',
   note='Patterns, ids, suffixes and thread counts are generated; sampled.'),
 "C09": dict(technique='runtime monitoring: traced computations with delays and injected failures, offline trace checker for exactly-once, order, limit and error reporting; race detector', phases=["plain","race"],
   note='Interleavings are sampled with delays and GOMAXPROCS variation, plain and under the race detector; outcome patterns generated.'),
 "C12": dict(technique='runtime monitoring: inotify watch on decoy files outside a scratch tree, content of loaded images matched with their files',
   note='only reads are watched here; names with two dots inside the tree may be refused or loaded'),
 "C29": dict(technique='runtime monitoring: recording promises around the operator, own model of the defined reference, race detector', phases=["plain","race"],
   note=''),
 "C31": dict(technique='runtime monitoring: offline checker matching the rows of the exported file one to one with the frames that went through, race detector', phases=["plain","race"],
   note=''),
 "C10": dict(technique='runtime monitoring: Go race detector over whole pipelines, byte comparison of all result files across thread counts and delays', phases=["plain","race"],
   note=''),
 "C34": dict(technique='runtime monitoring: result files of jobs run concurrently by the real server compared with those of the job alone, hostile and malformed requests with a liveness and panic monitor, race detector', phases=["plain","race"],
   note='Jobs, hostile parameters, frames and request mixes are generated; sampled. Redundant separators and symbolic links in file requests are not judged.'),
 "C11": dict(technique='runtime monitoring: parsed operators compared with constructed ones by what they serialize to and by their effect on images and files; refusal of damaged descriptions',
   note='Values, omissions, nestings and damages are generated for all 45 operator types; the defaults are tabled in the harness. Star detection with noise elimination draws random samples, there only the parameters are compared.'),
 "C33": dict(technique='runtime monitoring: the real program run with random flags, its exit status and every file compared with the pipeline built from library operators', tools={"nightlight":"./cmd/nightlight"},
   note='Flag combinations and sessions are generated with reproducible estimators; randomly sampling estimators and batching are judged by other properties.'),
 "C35": dict(technique='runtime monitoring: the real server started with every kind of -chroot/-setuid option inside its own user namespace; kernel view of root, cwd, user ids and capabilities of every thread plus escape probes by file requests and jobs', tools={"nightlight":"./cmd/nightlight"},
   note='Spellings of the directory, user ids and missing privileges are enumerated; escapes are probed through links, parent directories and absolute names. Group ids are not judged, the program does not set them.'),
 "C36": dict(technique='runtime monitoring: page and scripts fetched from the real server and run under node with a stand-in block library; jobs posted by the Run button parsed by the real parser and compared with what the blocks show',
   note='Every option of every list, limits and random values of every number, hostile texts and random nested pipelines are run. Blockly itself is not in the repository and is replaced by a stand-in that follows its code generation protocol; entries with unknown labels are not judged.'),
 "C37": dict(technique='runtime monitoring: frames coming out of the filter compared with their star counts; complete runs compared pixel by pixel and row by row with their twins that never saw the poor frames',
   note='Star counts around the threshold, the positions of poor frames, stacking modes and references are generated; sampled. Whether an unrelated frame is recognised as such is judged by C20.'),
}
