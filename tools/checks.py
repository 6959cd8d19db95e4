"""Which binaries decide which property."""
COMMON_ASSUMPTIONS = [
    'Elements and Alexandria are not installed: /verif/shim supplies their API (logging, configuration, thread pool, file pool, tables)',
    'Harness binaries are built with gcc -O1 and sanitizers, not with the -O3 -ffast-math of the shipped build',
]
# definitions of SourceGroupWithOnDemandProperties.h in a file no header names
ENTANGLED = ['SEFramework/src/lib/Source/EntangledSource.cpp']
BINARIES = {
    'spatial': dict(harness='spatial.cpp'),
    'views': dict(harness='views.cpp'),
    'tiles': dict(harness='tiles.cpp'),
    'conv': dict(harness='conv.cpp'),
    'params': dict(harness='params.cpp'),
    'resid': dict(harness='resid.cpp'),
    'models': dict(harness='models.cpp'),
    'psf': dict(harness='psf.cpp', stop='Plugin/Psf/PsfTask'),
    'aperture': dict(harness='aperture.cpp'),
    'props': dict(harness='props.cpp', extra_sources=ENTANGLED),
    'grouping': dict(harness='grouping.cpp', extra_sources=ENTANGLED),
    'segment': dict(harness='segment.cpp', extra_sources=ENTANGLED),
    'partition': dict(harness='partition.cpp', extra_sources=ENTANGLED),
    'pipeline': dict(harness='pipeline.cpp', extra_sources=ENTANGLED),
    'e2e': dict(script='e2e.py', programs={'VH_PROG': 'plain'}),
    'meas': dict(script='e2e_meas.py', programs={'VH_PROG': 'plain'}),
    'conf': dict(script='e2e_conf.py', programs={'VH_PROG': 'plain'}),
    'assoc': dict(script='e2e_assoc.py', programs={'VH_PROG': 'plain'}),
    'hostile': dict(script='e2e_hostile.py', programs={'VH_PROG': 'asan'}),
    'race': dict(script='e2e_race.py', programs={'VH_PROG': 'tsan'}, timeout=400, shards=8),
    'tiles_tsan': dict(harness='tiles.cpp', san='tsan'),
    'conv_tsan': dict(harness='conv.cpp', san='tsan', timeout=90),
    'props_tsan': dict(harness='props.cpp', san='tsan', extra_sources=ENTANGLED),
    'pipeline_tsan': dict(harness='pipeline.cpp', san='tsan', scale=.3, extra_sources=ENTANGLED),
    'fits_tsan': dict(harness='fits.cpp', san='tsan'),
    'psf_tsan': dict(harness='psf.cpp', san='tsan', stop='Plugin/Psf/PsfTask'),
    'wcs_tsan': dict(harness='wcs.cpp', san='tsan'),
    'fits': dict(harness='fits.cpp'),
    'background': dict(harness='background.cpp'),
    'wcs': dict(harness='wcs.cpp'),
    'output': dict(harness='output.cpp'),
}
NOT_CLAIMED = {}
PROPS = {
    'C21': dict(binaries=['race', 'tiles_tsan', 'conv_tsan', 'props_tsan', 'pipeline_tsan', 'fits_tsan', 'wcs_tsan', 'psf_tsan'], sections={'psf_tsan': ['stack_threads'], 'race': ['c21_.*'], 'tiles_tsan': ['storm'], 'conv_tsan': ['concurrent'], 'props_tsan': ['threads'], 'pipeline_tsan': ['complete'], 'fits_tsan': ['concurrent'], 'wcs_tsan': ['threads']}, rule='A case is one run of the whole program under ThreadSanitizer on a random scene with two to eight worker threads, small tiles, a small tile memory limit, several measurement images, apertures, PSFs, model fitting and check images; or one storm of threads on one shared component (tiles, FFT plans, task provider, pipeline stages with injected delays, FITS files, coordinate systems). Distinct by settings or by the order of events', technique='runtime monitoring: the whole program and the shared components under ThreadSanitizer with stress workloads'),
    'C23': dict(binaries=['hostile'], sections={'hostile': ['c23_.*']}, rule='A case is one run of the whole program, built with AddressSanitizer, UBSan and assertions, on one hostile input: images of NaN, infinities, extremes and odd shapes; damaged headers and truncated or mutated FITS bytes in every file it reads; broken PSF models; malformed catalogues; extreme or malformed values of every option; random Python configurations. It must end in order: processed or refused with a message. Distinct by section and files', technique='runtime monitoring: the whole program under AddressSanitizer, UBSan, library assertions and a time limit on generated hostile inputs'),
    'C26': dict(binaries=['assoc', 'spatial'], sections={'assoc': ['c26_.*'], 'spatial': ['kdtree']}, rule='A case is one run of the whole program on a random catalogue (0 to thousands of entries, pixel or world coordinates, modes, filters, radii, column selections, configuration files) with every row judged against a brute-force match of the entries; one catalogue-driven run with every row matched to its entry and its apertures recomputed from the pixels; one malformed catalogue or column selection that must be refused; or one batch of radius queries against brute force. Distinct by catalogue and settings', technique='runtime monitoring: the whole program run on random catalogues, every row judged by a brute-force matching oracle'),
    'C19': dict(binaries=['output', 'conf'], sections={'output': ['.*'], 'conf': ['c19_.*']}, rule='A case is one random registry (columns, instances, names, aliases) with random selections converted for random sources; one history of groups, flushes and parts through the buffered output; one file in one format with several parts; or one run of the whole program in another format, flush size or number of threads compared row by row. Distinct by history'),
    'C12': dict(binaries=['wcs', 'conf'], sections={'wcs': ['.*'], 'conf': ['c12_.*']}, rule='A case is one random header (projection, encoding of the matrix, distortion, axis order, extra axes and cards) converted at random positions both ways and compared with an independent evaluation of the header; one system with moved origins; one set of positions outside of the projection; one set of systems used by several threads; or one pair of frames with the derived centroid, Jacobians and rectangles. Distinct by kind of system'),
    'C24': dict(binaries=['conf'], sections={'conf': ['c24_.*']}, technique='runtime monitoring: the whole program run twice with settings whose documented meaning makes the results equal (or related), on bad settings, and on random Python configurations dumped and compared with an independent reading of the files', rule='A case is one pair of runs whose settings mean the same (units, weights, scales, files, orders, configuration file, Python level) with every row and check image compared; or one bad setting that has to be refused before anything is written; or one random Python configuration of images, groups and apertures compared attribute by attribute with the files it names. Distinct by kind and settings'),
    'C10': dict(binaries=['background'], rule='A case is one random image with mask, variance map, cell and box sizes put through the background analysis and compared with its definition (constant, plane, noisy sky with sources) or with its own result on a changed input (excluded pixels, scaled, offset, transposed, scaled weights); or one grid of cells through the gap filling or the median filter, compared with brute force. Distinct by the sizes and settings'),
    'C07': dict(binaries=['fits'], rule='A case is one history of creating, appending, modifying, tagging and reading HDUs of one file, judged by an independent reader of the bytes; or one file made by an independent writer (types, scaling, cubes, tables, keywords, .head) read by HDU and rectangle; or one broken file. Distinct by the history or layout'),
    'C20': dict(binaries=['meas'], sections={'meas': ['c20_.*']}, technique='runtime monitoring: the whole program run on random images, every measurement of every source recomputed by an independent numpy oracle', rule='A case is one run of the whole program (two for the shift cases) on random images and settings; every row of the catalogue is recomputed from the pixels of the images: counts, boundaries, peak, centroid, moments and ellipses, isophotal, Kron, automatic and aperture photometry, growth curve and flux radii. Distinct by the pixels and flux of the source'),
    'C17': dict(binaries=['meas'], sections={'meas': ['c17_.*']}, technique='runtime monitoring: the whole program run on random images, every flag of every source recomputed by an independent numpy oracle', rule='A case is one run of the whole program on random images, saturation levels, flag images and combination types (and up to three measurement images with apertures); the flags of every row are recomputed from the pixels. Distinct by peak, flags and configuration of the source'),
    'C25': dict(binaries=['e2e'], sections={'e2e': ['c25_.*']}, technique='runtime monitoring: the whole program run on random images, every pixel of every check image judged by an independent numpy oracle', rule='A case is one run (or three runs with different threads, tiles and memory limits) of the whole program on random images with random weights, background, filter, segmentation, partition and grouping settings; every pixel of the check images is compared with the catalogue, the weight map and recomputed layers. Distinct by image size and settings'),
    'C01': dict(binaries=['pipeline'], sections={'pipeline': ['complete']}, rule='A case is one run of the pipeline (prefetcher, grouping, deblending, threaded measurement, sorter, flushed output) in its own process with random frames, flush events, threads, queue, group and flush sizes and injected delays, judged on its event log; distinct by the order of the events seen'),
    'C22': dict(binaries=['pipeline'], sections={'pipeline': ['failing', 'unstarted']}, rule='A case is one run of the pipeline in its own process with one failure (prefetch, grouping, measurement, group measurement, row conversion, output, or feeding) planted at one source, judged on its exit and its event log; distinct by the order of the events seen'),
    'C03': dict(binaries=['partition'], rule='A case is one random image of a detected source (or list) put through one partition step (minimum area, attractors, multi-threshold, core threshold, cleaning, matching) or a chain of them through the partition stage, with the pixels of every piece compared with an independent model; distinct by the shape of source and outcome'),
    'C02': dict(binaries=['segment'], rule='A case is one random image (shapes, threshold, variance map, background, tile size) segmented by Lutz with and without a window and by BFS, each compared with a flood fill; or one small 0/1 image through the bare Lutz algorithm. Distinct by the pattern of detected pixels.'),
    'C04': dict(binaries=['grouping'], rule='A case is one history of arrivals and flush events through one grouping (general or optimised) with one criterion and limit, every released group compared with the connected components. Distinct by criterion, limit and the arrival and flush order.'),
    'C05': dict(binaries=['props'], rule='A case is one random history of requests, sets, additions, removals and merges over sources and groups with a graph of tasks, each answer and each number of task runs compared with a model of the caches; or one batch of identity laws; or one run of threads sharing a provider. Distinct by the trace.'),
    'C11': dict(binaries=['aperture'], rule='A case is one random aperture (circle or ellipse, up to two transforms) at one position compared pixel by pixel with its definition, or one flux or flag measurement on one random image with bad pixels and neighbours. Distinct by shape, position and image size.'),
    'C16': dict(binaries=['psf'], rule='A case is one random polynomial PSF model, PSF file (PSFEx, image, stack, well-formed or broken in one way), or one resampling/injection at a random scale and position compared pixel by pixel with a double-precision Lanczos sum. Distinct by the description of the model or geometry.'),
    'C15': dict(binaries=['models'], rule='A case is one random stack of component wrappers, one profile, one sampling configuration, one extended model rasterised on one grid, or one frame model scene. Distinct by the parameters.'),
    'C14': dict(binaries=['resid'], rule='A case is one comparator constant with random data, one random list of residual blocks (vectors, images, lazily evaluated models, priors) under parameter updates, or one random fit problem. Distinct by block list or by problem description.'),
    'C13': dict(binaries=['params'], rule='A case is one random converter (with its limits), one random graph of parameters, observers and dependents under a history of updates, one parameter block, or one observer history; every value and every observer is compared with the recomputed graph after the updates. Distinct by converter or by graph and history.'),
    'C09': dict(binaries=['conv'], rule='A case is one random image, kernel, padding, mask and tiling, convolved by the code and by a direct double-precision sum; non-trivial when at least one pixel is usable. Distinct by sizes, kernel and padding.'),
    'C06': dict(binaries=['tiles'], rule='A case is one random history of reads, writes, flushes, evictions and option changes over several tiled images sharing a tile manager, with a plain array kept beside each (or a concurrent storm of readers and writers). Distinct by the operation trace and limits.'),
    'C08': dict(binaries=['views'], rule='A case is one random composition of image views with a pixelwise definition built beside it, read by chunks, sub-chunks, corners and accessors; non-trivial when the composition has at least one view. Distinct by the composition and its sizes.'),
    'C18': dict(binaries=['spatial'], rule='A case is one random history of add/remove/query on an index (or one query batch / curve size); non-trivial when a query returned points. Distinct by (style, capacity, operation counts, hits).'),
}
