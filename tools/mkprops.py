#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (python3 tools/mkprops.py rewrites it)."""
import json, os
FW, IM, MF, SU = 'SEFramework/', 'SEImplementation/', 'ModelFitting/', 'SEUtils/'
P = []


def p(id, title, statement, over, text, why, files, mech, observe, hook=False, state=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               state=[dict(name=n, meaning=m) for n, m in state],
                               observe_at=[observe], hook_needed=None)))


p('C01', 'The catalogue is independent of threads; every source written once, in order',
  'Whatever the number of worker threads, queue sizes and scheduling, every source that reaches the measurement stage is written to the catalogue exactly once and nothing else is; with sorted output the rows come out in the order in which the sources entered measurement. Values in the catalogue are those a single-threaded run produces, and control (flush) events overtake no source.',
  ['schedules', 'inputs', 'configurations'], 'all thread counts, queue limits and interleavings of prefetching, measuring, sorting and output; all streams of sources, groups and process-source events',
  'The unit tests drive each stage from one thread (the multi-threaded measurement and the prefetcher have no test at all); no test compares runs across thread counts or schedules.',
  [IM + 'src/lib/Measurement/MultithreadedMeasurement.cpp', IM + 'src/lib/Prefetcher/Prefetcher.cpp', 'SEMain/src/lib/Sorter.cpp', FW + 'src/lib/Pipeline/PipelineStage.cpp', IM + 'SEImplementation/Output/FlushableOutput.h'],
  [('worker tasks hand measured groups to an output thread', 'MultithreadedMeasurement::receiveSource / outputThreadLoop'), ('reordering after prefetch', 'Prefetcher::outputLoop'), ('release in SourceID order', 'Sorter::receiveSource')],
  'rows recorded by an output stage at the end of the real pipeline', state=[('SourceID', 'identity and order of entry in measurement')])

p('C02', 'Detection finds exactly the 8-connected regions above threshold',
  'Segmentation reports every maximal 8-connected set of pixels above the detection threshold of the (filtered) detection image as one source and reports nothing else: each detected pixel belongs to exactly one source and no undetected pixel belongs to any. The result does not depend on the tile layout, the memory limits or the progress window.',
  ['inputs', 'configurations'], 'all images (shapes, sizes, nested, touching, border-crossing regions), thresholds, tile sizes and segmentation algorithm settings',
  'Tests label two small hand-drawn images; merge chains, nested spirals and window/tile boundaries are combinatorial.',
  [IM + 'src/lib/Segmentation/Lutz.cpp', IM + 'src/lib/Segmentation/LutzSegmentation.cpp', IM + 'src/lib/Segmentation/BFSSegmentation.cpp', FW + 'SEFramework/Image/ThresholdedImage.h'],
  [('single-pass run merging', 'Lutz::labelImage'), ('flood fill over Hilbert-ordered tiles', 'BFSSegmentation::labelTile'), ('threshold comparison', 'ThresholdedImage::getChunk')],
  'pixel lists of the sources emitted by the segmentation stage')

p('C03', 'Partitioning, deblending and cleaning only redistribute detected pixels',
  'Every partition step returns sources whose pixels are disjoint, are a subset of the pixels of the source it was given and, except where the step\'s documented criterion drops them (minimum area), together make up all of them. Minimum-area steps keep exactly the sources that reach the minimum, splitting by local maxima keeps a source with one maximum whole, and cleaning merges a faint source into the neighbour that dominates it without losing a pixel.',
  ['inputs', 'configurations', 'histories'], 'all source shapes and pixel values, all step parameters and chains of steps',
  'Tests check one or two fixed sources per step; conservation and disjointness must hold for any shape.',
  [IM + 'src/lib/Partition/MinAreaPartitionStep.cpp', IM + 'src/lib/Partition/AttractorsPartitionStep.cpp', IM + 'src/lib/Partition/MultiThresholdPartitionStep.cpp', IM + 'src/lib/Deblending/Cleaning.cpp', FW + 'src/lib/Pipeline/Partition.cpp', FW + 'src/lib/Pipeline/Deblending.cpp'],
  [('steepest-ascent propagation of attractors', 'AttractorsPartitionStep::propagateAttractors'), ('threshold tree and pixel reassignment', 'MultiThresholdPartitionStep::partition'), ('merge of cleaned sources', 'Cleaning::mergeSources')],
  'pixel lists of the sources coming out of each step')

p('C04', 'Grouping is the transitive closure of its criterion; every source in one group',
  'Between two flush points every source that enters grouping leaves in exactly one group, two sources are in the same group if and only if they are linked by a chain of sources each pair of which satisfies the grouping criterion, and no group exceeds a configured hard size limit. A flush event for a position releases all groups containing a source the event selects, and at the end nothing remains held back.',
  ['histories', 'inputs', 'configurations'], 'all arrival orders of sources and flush events, all criteria (none, overlap, split, assoc, line of sight) and limits',
  'Tests group a handful of sources in one order with a fixed criterion.',
  [FW + 'src/lib/Pipeline/SourceGrouping.cpp', IM + 'src/lib/Grouping/OverlappingBoundariesCriteria.cpp', IM + 'src/lib/Grouping/SplitSourcesCriteria.cpp', IM + 'src/lib/Grouping/MoffatGrouping.cpp', IM + 'src/lib/Grouping/AssocGrouping.cpp', SU + 'SEUtils/QuadTree.h'],
  [('merge of groups a new source bridges', 'SourceGrouping::receiveSource'), ('release on process-source events', 'SourceGrouping::receiveProcessSignal')],
  'groups received by the stage after grouping')

p('C05', 'Properties are computed on demand, cached, and refreshed when a group changes',
  'Asking any source for a property returns the value its task computes, computes it at most once however often, in whichever order and through whichever sibling it is asked, and keeps instances with different indices apart; asking for a property nobody can compute fails with the not-found error and never with a stale or default value. Changing the members of a group discards the group\'s and members\' group-derived properties but keeps the sources\' own ones.',
  ['histories', 'inputs'], 'all sequences of get/set/clone/add/erase/merge on sources and groups, all dependency graphs of tasks',
  'Tests check single requests; caching, invalidation and index separation are about histories.',
  [FW + 'src/lib/Source/SourceWithOnDemandProperties.cpp', FW + 'src/lib/Source/SourceGroupWithOnDemandProperties.cpp', FW + 'src/lib/Source/EntangledSource.cpp', FW + 'src/lib/Property/PropertyHolder.cpp', FW + 'src/lib/Property/PropertyId.cpp', FW + 'src/lib/Task/TaskProvider.cpp'],
  [('lookup, compute, cache', 'SourceWithOnDemandProperties::getProperty'), ('group invalidation', 'SourceGroupWithOnDemandProperties::clearGroupProperties'), ('identity of a property', 'PropertyId ==, <, hash')],
  'values and task invocations seen through getProperty')

p('C06', 'Tiled, cached images read and write like one plain image in memory',
  'Reading any pixel or chunk of a tiled image returns what its source holds there, and the last value written, whatever the tile size, the memory limit, the order of accesses, evictions and flushes, and the number of threads reading. After a flush the backing store holds every write, and the cache\'s memory use returns under its limit.',
  ['histories', 'schedules', 'configurations'], 'all sequences of reads, writes, evictions and flushes, all tile sizes and memory limits, concurrent readers',
  'Tests touch a few tiles of one image in one order, with one thread.',
  [FW + 'src/lib/Image/TileManager.cpp', FW + 'SEFramework/Image/BufferedImage.h', FW + 'SEFramework/Image/WriteableBufferedImage.h', FW + 'src/lib/Image/ImageTile.cpp', FW + 'SEFramework/Image/ImageTile.h'],
  [('tile lookup and LRU eviction', 'TileManager::getTileForPixel'), ('write-back of modified tiles', 'TileManager::saveTile / ImageTile destructor'), ('chunk assembly over tiles', 'BufferedImage::getChunk')],
  'values returned by getChunk/getValue and the backing source after flush')

p('C07', 'FITS pixels and header keywords survive the I/O layer unchanged',
  'An image written through the FITS layer and read back, whole or by any sub-rectangle, any HDU and any supported pixel type, has the same pixels and dimensions; header keywords come back with their value and comment, an accompanying .head file overrides the keywords of the matching HDU only, and reading from a file that is missing, cut short or not an image fails with an error instead of inventing pixels.',
  ['inputs', 'histories', 'configurations'], 'all image sizes, pixel types, HDU layouts, header contents, .head files and tile access orders',
  'Tests read one small file; types, HDUs, head files and rectangles are not crossed.',
  [FW + 'src/lib/FITS/FitsImageSource.cpp', FW + 'src/lib/FITS/FitsFile.cpp', FW + 'SEFramework/FITS/FitsReader.h', FW + 'SEFramework/FITS/FitsWriter.h'],
  [('sub-image read and write', 'FitsImageSource::getImageTile / saveTile'), ('header parsing and .head override', 'FitsFile::loadFitsHeader / loadHeadFile')],
  'pixels and metadata read back, compared with an independent reader')

p('C08', 'Every image view equals its pixelwise definition, by pixel and by chunk',
  'For every image adaptor (sub-image, mirror, padding modes, recentring, masking, scaling, function images, arithmetic on images, thresholding, interpolation of bad pixels) the value at each pixel is the one its definition gives from the underlying image, for any rectangle requested, and reading a rectangle equals reading its pixels one by one. Requests never read outside the underlying image and never change it.',
  ['inputs'], 'all image contents and sizes (including 1x1), all rectangles, all compositions of views',
  'Tests check single views on fixed 3x3 to 10x10 images.',
  [FW + 'SEFramework/Image/SubImage.h', FW + 'SEFramework/Image/MirrorImage.h', FW + 'SEFramework/Image/PaddedImage.h', FW + 'SEFramework/Image/RecenterImage.h', FW + 'SEFramework/Image/MaskedImage.h', FW + 'SEFramework/Image/ProcessedImage.h', FW + 'SEFramework/Image/ThresholdedImage.h', FW + 'SEFramework/Image/InterpolatedImageSource.h', FW + 'SEFramework/Image/ImageAccessor.h', FW + 'SEFramework/Image/ImageChunk.h', FW + 'SEFramework/Image/VectorImage.h', FW + 'SEFramework/Image/FunctionalImage.h', SU + 'SEUtils/PixelRectangle.h'],
  [('coordinate remapping', 'getChunk / getValue of each view'), ('chunk data sharing', 'ImageChunk, UniversalImageChunk')],
  'values returned through the image interface')

p('C09', 'FFT convolution equals direct convolution; filtering honours bad pixels',
  'Convolving an image with a kernel through Fourier transforms gives the same image as the direct sum with the same padding, for all sizes, kernels and paddings, and a forward-inverse transform returns the input. Filtering the detection image replaces each usable pixel by the kernel-weighted mean over the usable pixels around it only (unusable ones contribute nothing and come out as zero), independently of the tile being asked for.',
  ['inputs', 'configurations', 'schedules'], 'all image and kernel sizes (odd, even, larger than the image), contents, variance maps, tiles; concurrent use',
  'Tests convolve a few small images with fixed kernels.',
  [FW + 'src/lib/FFT/FFT.cpp', FW + 'SEFramework/Convolution/DFT.h', FW + 'SEFramework/Convolution/DirectConvolution.h', IM + 'src/lib/Segmentation/BgConvolutionImageSource.cpp', IM + 'src/lib/Segmentation/BgDFTConvolutionImageSource.cpp'],
  [('plan creation and execution', 'FFT<T>::createForwardPlan and friends'), ('padding, kernel recentring and cropping', 'DFTConvolution::convolve'), ('normalised sum over unmasked pixels', 'BgConvolutionImageSource::generateTile')],
  'images produced by the convolution and image-source interfaces')

p('C10', 'The background model follows the sky and ignores sources, masks and offsets',
  'The background of a constant sky is that constant with no noise, adding a constant to an image adds it to the background and leaves the noise unchanged, scaling scales both, and pixels excluded by mask or weight have no influence. Cells without usable pixels take the mean of the closest usable cells, the median smoothing replaces a cell by the median of the window centred on it, and reduced statistics stay within the range of the data they summarise.',
  ['inputs', 'configurations'], 'all images, masks, weights, cell sizes, smoothing windows and image sizes that are not multiples of the cell',
  'Tests run one simulated image against recorded numbers.',
  [IM + 'src/lib/Background/SE/SEBackgroundLevelAnalyzer.cpp', IM + 'src/lib/Background/SE/ReplaceUndefImage.cpp', IM + 'SEImplementation/Background/SE/MedianFilter.h', IM + 'SEImplementation/Background/SE/KappaSigmaBinning.h', IM + 'src/lib/Background/SE/ImageMode.cpp', IM + 'src/lib/Background/SimpleBackgroundAnalyzer.cpp'],
  [('mode estimation per cell', 'ImageMode::process'), ('nearest-neighbour fill', 'ReplaceUndef'), ('window median', 'MedianFilter')],
  'background and variance images returned by the analyzers')

p('C11', 'Aperture photometry counts exactly the aperture, with its errors and flags',
  'The flux in an aperture is the sum of image values weighted by the exactly defined coverage of each pixel by the aperture, the variance is the same sum over the variance map, masked pixels are replaced by their mirror about the centre only when asked, and the area is the total coverage. Flags report precisely what the aperture meets: image border, unusable pixels, saturation, neighbours, and bias beyond the documented fraction; an aperture, also a transformed one, never reads outside the image and reports bounds that contain every pixel it covers (for a transformed one, every pixel whose centre it covers).',
  ['inputs', 'configurations'], 'all centres, radii, ellipses, transforms, image borders, masks and neighbour configurations',
  'Tests measure a few centred apertures on a uniform image.',
  [FW + 'src/lib/Aperture/CircularAperture.cpp', FW + 'src/lib/Aperture/EllipticalAperture.cpp', FW + 'src/lib/Aperture/TransformedAperture.cpp', FW + 'src/lib/Aperture/FluxMeasurement.cpp', FW + 'src/lib/Aperture/Flagging.cpp', FW + 'src/lib/Aperture/NeighbourInfo.cpp'],
  [('sub-pixel coverage', 'CircularAperture::getArea, EllipticalAperture::getArea'), ('flux, variance and mirror substitution', 'measureFlux'), ('flag rules', 'computeFlags')],
  'results of the aperture interface and flux measurement')

p('C12', 'World and pixel coordinates convert back and forth consistently',
  'Converting a pixel position to the sky and back returns the position, agrees with an independent evaluation of the same header, follows the 0-based pixel convention, and is unaffected by other conversions running at the same time; positions outside the projection fail with an error instead of a wrong answer. Jacobians derived from it describe the local pixel-to-pixel mapping, and offsetting the origin shifts pixels by exactly that offset.',
  ['inputs', 'configurations', 'schedules'], 'all projections and distortions the header can describe, all positions, concurrent callers',
  'Tests convert a few points of three fixed headers from one thread.',
  [FW + 'src/lib/CoordinateSystem/WCS.cpp', IM + 'src/lib/Plugin/Jacobian/JacobianTask.cpp', FW + 'SEFramework/CoordinateSystem/CoordinateSystem.h'],
  [('wcslib calls with the 1-based shift', 'WCS::imageToWorld / worldToImage'), ('finite differences', 'JacobianSourceTask::computeProperties')],
  'results of the coordinate system interface')

p('C13', 'Fit parameters convert losslessly, stay in range and propagate every change',
  'World and engine values of a fit parameter are mutually inverse conversions, a ranged parameter never leaves its range whatever the engine proposes, and increasing one increases the other. After any sequence of updates through the parameter or through the engine, the world value, the engine value, all observers and all dependent parameters (through any chain) agree with the last update, and the parameter block handed to and from the engine keeps the registration order.',
  ['inputs', 'histories'], 'all ranges, initial values, update sequences, observer graphs and parameter sets',
  'Tests check a few values per converter and single updates.',
  [MF + 'src/lib/Parameters/EngineParameter.cpp', MF + 'src/lib/Parameters/BasicParameter.cpp', MF + 'src/lib/Parameters/NeutralConverter.cpp', MF + 'src/lib/Parameters/NormalizedConverter.cpp', MF + 'src/lib/Parameters/SigmoidConverter.cpp', MF + 'src/lib/Parameters/ExpSigmoidConverter.cpp', MF + 'ModelFitting/Parameters/DependentParameter.h', MF + 'src/lib/Engine/EngineParameterManager.cpp', SU + 'SEUtils/Observable.h'],
  [('value and engine value update', 'EngineParameter::setValue / setEngineValue'), ('notification', 'BasicParameter::setValue, DependentParameter::update'), ('bulk transfer', 'EngineParameterManager::getEngineValues / updateEngineValues')],
  'values read from parameters and seen by observers')

p('C14', 'Residuals follow their definition and the fit finds the minimum they define',
  'Each residual block yields exactly its number of residuals, in registration order, equal to the weighted difference its comparator defines between model and data, and a prior contributes its weighted distance from the expected value. For any well-posed problem the fit ends at parameters no worse than the start that satisfy the least-squares optimality condition, with uncertainties from the curvature there, and reports failure through its status rather than through silently wrong values.',
  ['inputs', 'configurations'], 'all data, weights, comparators, priors, well-posed models and starting points',
  'Tests fit a couple of fixed one-dimensional models.',
  [MF + 'src/lib/Engine/ResidualEstimator.cpp', MF + 'src/lib/Engine/EngineValueResidual.cpp', MF + 'src/lib/Engine/WorldValueResidual.cpp', MF + 'ModelFitting/Engine/DataVsModelResiduals.h', MF + 'ModelFitting/Engine/LogChiSquareComparator.h', MF + 'ModelFitting/Engine/AsinhChiSquareComparator.h', MF + 'src/lib/Engine/GSLEngine.cpp'],
  [('block layout', 'ResidualEstimator::populateResiduals'), ('comparators', 'ChiSquareComparator and friends'), ('Levenberg-Marquardt driver', 'GSLEngine::solveProblem')],
  'residual arrays, final parameter values and summaries')

p('C15', 'Rasterised models carry the model\'s flux at the model\'s place and shape',
  'A model rendered on pixels of any size reproduces the integral of its analytic profile over those pixels, scales linearly with flux, is rotated, stretched, transformed and positioned exactly as its parameters say, and a Jacobian transform preserves total flux. A frame model is the sum of its constant, point and extended parts, wherever they lie relative to the frame border, and adds nothing outside.',
  ['inputs', 'configurations'], 'all profile parameters, pixel scales, rotations, transforms, positions inside and outside the frame',
  'Tests evaluate a profile at a few points; rendering is only checked by eye.',
  [MF + 'src/lib/Models/AutoSharp.cpp', MF + 'src/lib/Models/OldSharp.cpp', MF + 'src/lib/Models/OnlySmooth.cpp', MF + 'src/lib/Models/SersicProfile.cpp', MF + 'src/lib/Models/FlattenedMoffatComponent.cpp', MF + 'src/lib/Models/RotatedModelComponent.cpp', MF + 'src/lib/Models/ScaledModelComponent.cpp', MF + 'src/lib/Models/TransformModelComponent.cpp', MF + 'src/lib/Models/PositionedModel.cpp', MF + 'src/lib/Models/PointModel.cpp', MF + 'src/lib/Models/ConstantModel.cpp', MF + 'ModelFitting/Models/FrameModel.h', MF + 'ModelFitting/Models/CompactSersicModel.h'],
  [('sub-sampling of the sharp core', 'AutoSharp::getSampledGrid...'), ('coordinate transforms', 'RotatedModelComponent::getValue and friends'), ('rendering and PSF convolution', 'FrameModel::getImage')],
  'values and rasters returned by models', state=[])

p('C16', 'The PSF delivered for a position is the one the PSF model defines there',
  'A variable PSF evaluated at given parameter values is the documented polynomial combination of its components, an image stack delivers the stamp for that position, and resampled or injected images keep total flux and land at the requested sub-pixel position. A PSF model whose layers or coefficients do not match is refused.',
  ['inputs', 'configurations'], 'all polynomial groups, degrees, offsets, scales and positions; all stamp sizes, pixel scales and sub-pixel shifts',
  'Tests evaluate one or two hand-made PSFs.',
  [FW + 'SEFramework/Psf/VariablePsf.h', FW + 'src/lib/Psf/VariablePsf.cpp', FW + 'src/lib/Psf/VariablePsfStack.cpp', IM + 'src/lib/Image/ImageInterfaceTraits.cpp', IM + 'SEImplementation/Image/ImagePsf.h', IM + 'SEImplementation/Image/WriteableImageInterfaceTraits.h'],
  [('monomial expansion', 'VariablePsf::getPsf / scaleProperties'), ('Lanczos resampling', 'ImageTraits::addImageToImage / factory')],
  'PSF images and injected rasters')

p('C17', 'Source flags are the union of what was observed, per image and overall',
  'The combined flags of a source contain a flag if and only if some contributing measurement raised it; border, blending, saturation and neighbour flags hold exactly when their documented condition does. External flag images are combined over exactly the source\'s pixels with the configured operation (or, and, min, max, most frequent) and the reported count is the number of pixels that contributed.',
  ['inputs', 'configurations', 'histories'], 'all flag combinations, source shapes, flag image contents and combination types',
  'Tests combine two or three fixed flag values.',
  [IM + 'src/lib/Plugin/ExternalFlag/ExternalFlagTask.cpp', IM + 'src/lib/Plugin/SourceFlags/SourceFlagsSourceTask.cpp', IM + 'SEImplementation/Plugin/SaturateFlag/SaturateFlagSourceTask.h', IM + 'SEImplementation/Plugin/BoundaryFlag/BoundaryFlagSourceTask.h', IM + 'SEImplementation/Plugin/BlendedFlag/BlendedFlagTask.h', FW + 'SEFramework/Source/SourceFlags.h'],
  [('combination operators', 'ExternalFlagCombineTypes'), ('union over instances', 'SourceFlagsSourceTask::computeProperties')],
  'flag properties of sources')

p('C18', 'Spatial indices answer range queries exactly like a linear scan',
  'A range query on a spatial index returns precisely the stored points within the range, once each, after any history of additions and removals and for any point distribution including coincident points. The space-filling traversal visits every cell of the square exactly once in unit steps.',
  ['histories', 'inputs'], 'all point distributions, capacities, histories of add/remove and query positions and ranges; all curve sizes',
  'Tests query a few dozen points in one configuration.',
  [SU + 'SEUtils/QuadTree.h', SU + 'SEUtils/_impl/QuadTree.icpp', SU + 'SEUtils/KdTree.h', SU + 'SEUtils/_impl/KdTree.icpp', SU + 'SEUtils/HilbertCurve.h'],
  [('splitting, expanding and pruning', 'QuadTree::add / expand / getPointsWithinRange'), ('median split', 'KdTree::Split')],
  'points returned by queries')

p('C19', 'Every output row has the selected columns with the values of its own source',
  'For every source handed to the output, one row with exactly the columns of the selected properties (each column once, per instance when a property has several), holding that source\'s values with their declared types, is written to the part being written, whatever the flush size and the output format. Part boundaries separate rows by detection frame and nothing is lost, repeated or reordered at flushes.',
  ['configurations', 'histories', 'inputs'], 'all selections of properties, instance registrations, flush sizes, numbers of parts and formats',
  'Tests build one row from one source.',
  [FW + 'src/lib/Output/OutputRegistry.cpp', FW + 'SEFramework/Output/OutputRegistry.h', IM + 'SEImplementation/Output/FlushableOutput.h', IM + 'src/lib/Output/LdacOutput.cpp', IM + 'src/lib/Output/OutputFactory.cpp'],
  [('row building', 'OutputRegistry::getSourceToRowConverter'), ('buffering', 'FlushableOutput::outputSource / flush')],
  'tables handed to the writers')

p('C20', 'Basic measurements equal their textbook definitions on the source\'s own pixels',
  'Boundaries, centroid, second moments and ellipse, peak, area under threshold, isophotal and Kron-like photometry, growth curve, flux and half-flux radii are those of the definition applied to exactly the source\'s pixels (or aperture), shift with the source when the image is shifted, and never depend on other sources except through documented neighbour masking. Cumulative curves never lose flux between radii.',
  ['inputs', 'configurations'], 'all source shapes (single pixel, line, border), pixel values including negative, frames and scales',
  'Tests check one synthetic shape per measurement.',
  [IM + 'src/lib/Plugin/PixelBoundaries/PixelBoundariesTask.cpp', IM + 'src/lib/Plugin/PixelCentroid/PixelCentroidTask.cpp', IM + 'src/lib/Plugin/ShapeParameters/ShapeParametersTask.cpp', IM + 'SEImplementation/Plugin/PeakValue/PeakValueTask.h', IM + 'src/lib/Plugin/IsophotalFlux/IsophotalFluxTask.cpp', IM + 'src/lib/Plugin/GrowthCurve/GrowthCurveTask.cpp', IM + 'src/lib/Plugin/FluxRadius/FluxRadiusTask.cpp', IM + 'src/lib/Plugin/KronRadius/KronRadiusTask.cpp', IM + 'src/lib/Plugin/AutoPhotometry/AutoPhotometryTask.cpp', IM + 'src/lib/Plugin/AperturePhotometry/AperturePhotometryTask.cpp'],
  [('moments', 'ShapeParametersTask::computeProperties'), ('annular accumulation', 'GrowthCurveTask::computeProperties')],
  'measurement properties of sources')

p('C21', 'Components shared between threads are free of data races and deadlocks',
  'While several threads measure sources at once, components they share (tile cache, images and views, coordinate systems, PSFs, Fourier plans, property tasks, pipeline queues, check images) are accessed without unsynchronised conflicting accesses and without lock cycles. No schedule makes a thread wait for ever.',
  ['schedules'], 'all interleavings of concurrent readers, writers, evictions and pipeline stages',
  'The tests run single-threaded.',
  [FW + 'src/lib/Image/TileManager.cpp', IM + 'src/lib/Measurement/MultithreadedMeasurement.cpp', IM + 'src/lib/Prefetcher/Prefetcher.cpp', FW + 'src/lib/CoordinateSystem/WCS.cpp', FW + 'src/lib/FFT/FFT.cpp', FW + 'SEFramework/Image/BufferedImage.h', FW + 'SEFramework/Image/MaskedImage.h'],
  [('tile manager lock', 'TileManager::m_mutex'), ('queues and condition variables', 'Prefetcher, MultithreadedMeasurement'), ('planner lock', 'fftw_global_plan_mutex')],
  'ThreadSanitizer reports over concurrent workloads; progress watchdog')

p('C22', 'A failure while processing surfaces as a failure: no hang, no silent success',
  'When computing a property, reading a tile or writing output fails in any thread at any point, the run ends in bounded time, the failure reaches the caller of the pipeline, and rows already promised to the catalogue are not written twice or in the wrong order. Sources processed before the failure are unaffected.',
  ['fault_sequences', 'schedules'], 'all positions of a failing source, all stages and thread counts',
  'No test injects a failure into a worker.',
  [IM + 'src/lib/Measurement/MultithreadedMeasurement.cpp', IM + 'src/lib/Prefetcher/Prefetcher.cpp', FW + 'src/lib/Source/SourceWithOnDemandProperties.cpp'],
  [('abort on exception', 'MultithreadedMeasurement::outputThreadStatic'), ('exception hand-over', 'Prefetcher / ThreadPool::checkForException')],
  'exceptions and completion observed by the driver of the pipeline')

p('C23', 'Hostile input is refused or processed, never a memory error or UB',
  'For any FITS header, .head file, PSF file, catalogue, image content (empty regions, constant, NaN, infinite, one pixel) and option string, the library either works or reports an error; it never reads or writes outside its buffers, divides an integer by zero, overflows or dereferences a null or dangling pointer.',
  ['inputs', 'configurations'], 'all byte contents of input files and option strings, all degenerate images and geometries',
  'Tests use well-formed files and images only, without sanitizers.',
  [FW + 'src/lib/FITS/FitsFile.cpp', FW + 'src/lib/FITS/FitsImageSource.cpp', IM + 'src/lib/Plugin/Psf/PsfPluginConfig.cpp', IM + 'src/lib/Plugin/AssocMode/AssocModeConfig.cpp', IM + 'src/lib/Segmentation/BgConvolutionImageSource.cpp', FW + 'SEFramework/Image/ImageChunk.h'],
  [('header and card parsing', 'FitsFile::loadHeadFile'), ('index arithmetic', 'image views, tiles and chunks')],
  'AddressSanitizer and UndefinedBehaviorSanitizer over generated inputs')

p('C24', 'Settings take effect with their documented meaning; bad ones are refused',
  'Every command-line, configuration-file and Python-level setting (apertures, image lists and HDUs, weights and their type, thresholds, partition and grouping choices, threads, memory, magnitudes) takes effect with its documented meaning and default, including unit conversions such as weight to variance. Settings that are unknown, malformed or contradictory are refused with an error before processing starts.',
  ['configurations', 'inputs'], 'all combinations and values of the options, all image and header combinations given to the Python-level objects',
  'Tests cover a few options with a few values.',
  [IM + 'src/lib/Configuration/WeightImageConfig.cpp', IM + 'src/lib/Configuration/SegmentationConfig.cpp', IM + 'src/lib/PythonConfig/PyAperture.cpp', IM + 'src/lib/PythonConfig/PyFitsFile.cpp', IM + 'src/lib/PythonConfig/PyMeasurementImage.cpp', IM + 'src/lib/PythonConfig/PyId.cpp', IM + 'python/sourcextractor/config'],
  [('weight conversion', 'WeightImageConfig::convertWeightMap'), ('option parsing', 'Configuration classes'), ('image properties from headers', 'PyMeasurementImage')],
  'values the configuration objects hand out')

p('C25', 'Check images agree pixel by pixel with the catalogue and the frames',
  'The segmentation, partition and group check images hold at each pixel the identifier of the one source or group that owns it and zero elsewhere; background, variance, filtered, thresholded and SNR images equal what detection used. Writing them from several threads or with evicted tiles gives the same files.',
  ['inputs', 'schedules'], 'all detections, frame layerings, tile evictions and writer threads',
  'No test produces a check image.',
  [IM + 'src/lib/CheckImages/CheckImages.cpp', IM + 'SEImplementation/CheckImages/SourceIdCheckImage.h', IM + 'src/lib/CheckImages/DetectionIdCheckImage.cpp', FW + 'src/lib/Frame/Frame.cpp', FW + 'SEFramework/Image/ProcessedImage.h'],
  [('identifier painting', 'DetectionIdCheckImage / SourceIdCheckImage::handleMessage'), ('frame layering', 'Frame<T>::getSubtractedImage and friends')],
  'pixels of the check and frame images')

p('C26', 'Catalogue association picks the right entries and carries their values',
  'A source is associated with catalogue entries within the radius only, combined with the configured rule (first, nearest, mean, sum, minimum, maximum, weighted variants), and the delivered columns are those of the entries; unmatched sources are flagged as such and carry not-a-number in as many values as matched ones. Pixel and world catalogues give the same matches, and sources from a catalogue-driven detection appear once per entry at its position.',
  ['inputs', 'configurations'], 'all catalogues, radii, modes, column selections and source positions',
  'Tests match one source against a few entries.',
  [IM + 'src/lib/Plugin/AssocMode/AssocModeTask.cpp', IM + 'src/lib/Plugin/AssocMode/AssocModeConfig.cpp', IM + 'src/lib/Segmentation/AssocSegmentation.cpp', SU + 'SEUtils/KdTree.h'],
  [('radius search', 'KdTree::findPointsWithinRadius'), ('combination', 'AssocModeTask::compute...')],
  'association properties of sources')

if __name__ == '__main__':
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
    with open(out, 'w') as f:
        for q in P:
            assert len(q['title']) <= 80, (q['id'], len(q['title']))
            f.write(json.dumps(q, ensure_ascii=False) + '\n')
    repo = '/repo/'
    for q in P:
        for fl in q['anchors']['files']:
            if not os.path.exists(repo + fl):
                print(q['id'], 'missing', fl)
