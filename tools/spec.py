#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json:  python3 tools/spec.py  rewrites both.

A property is claimed as soon as mc/checks/<id>.py exists."""
import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def P(id, title, statement, over, text, tests, files, mechanism, observe, technique, note, state=None,
      level='model_checking'):
    return dict(id=id, title=title, statement=statement, over=over, text=text, tests=tests, files=files,
                mechanism=mechanism, observe=observe, technique=technique, note=note, state=state, level=level)


S = 'surfalize/'
PROPS = [
P('C01', 'Results never depend on what was computed or edited before',
  'After any sequence of parameter evaluations, in-place operations, element assignments and replacements of the '
  'height data, every parameter of a surface or profile equals the value obtained from a newly constructed object '
  'with the same heights and step sizes. This holds for every argument a parameter accepts: evaluating a parameter '
  'with one set of arguments (or another parameter) never changes what a later evaluation returns.',
  ['histories', 'inputs'],
  'all histories of edits and in-place operations up to the depth bound, interleaved with evaluations, all ordered '
  'pairs of parameter evaluations with different arguments',
  'the tests evaluate a handful of parameters after a single edit; staleness needs a specific query before a '
  'specific mutation and the same query after it',
  [S + 'cache.py', S + 'base.py', S + 'surface.py', S + 'profile.py', S + 'abbottfirestone.py',
   S + 'autocorrelation.py', S + 'fourier.py'],
  [('per-instance method cache keyed by the arguments', S + 'cache.py: cache'),
   ('cache invalidation on every data change', S + 'surface.py: Surface.data setter, _set_data; '
    + S + 'base.py: __setitem__'),
   ('read-only view of the height data', S + 'surface.py: Surface.data')],
  ['return values of all parameters', 'width, height and length of the topography'],
  'explicit-state exploration of operation histories on the real code, differential oracle: fresh object',
  'Exhaustive over all histories of the stated alphabet up to depth 2 (quick) / 3 (thorough) and all ordered pairs '
  'of evaluations; the heights are a fixed generic alphabet.',
  [('method cache', 'memoised results of one object', S + 'cache.py: CachedInstance._method_cache')]),
P('C02', 'Objects derived from a topography share no state with it',
  'Every non-in-place operation, slice, profile extraction, arithmetic operation or trend returns new objects: '
  'editing or processing the result in place never changes the heights, dimensions or parameters of the source, and '
  'editing or processing the source afterwards never changes the result. Derived objects are themselves editable. '
  'Material ratio curves, autocorrelation functions and Fourier transforms keep describing the heights that they were '
  'derived from.',
  ['histories', 'programs'],
  'every derivation followed by every edit of the source or of the result, with parameters evaluated before and after',
  'the tests compare results of operations but hardly ever edit the source or the result afterwards',
  [S + 'base.py', S + 'surface.py', S + 'profile.py', S + 'filter.py'],
  [('read-only arrays are copied by the data setter', S + 'surface.py: Surface.data setter; ' + S +
    'profile.py: Profile.data setter'), ('construction of new objects', S + 'base.py: _with_data')],
  ['heights, step sizes, extents and parameters of source and result'],
  'exhaustive exploration of derive/edit histories on the real code',
  'Exhaustive over the alphabet of derivations x edits x direction (and chains of two derivations in the thorough '
  'tier).'),
P('C03', 'In-place and copying variants of an operation agree',
  'Performing an operation in place leaves the object with exactly the heights, step sizes and extents that the '
  'copying variant returns, and returns the object itself; the copying variant leaves its source unchanged. An '
  'operation that raises an error leaves the object unchanged.',
  ['inputs', 'configurations'],
  'every operation that has an in-place variant, over an alphabet of arguments, shapes, step sizes, height types and '
  'non-measured points, including all sequences of two operations',
  'the tests exercise the in-place variant of few operations, with one argument set each',
  [S + 'base.py', S + 'surface.py', S + 'profile.py', S + 'filter.py'],
  [('in-place branch of every operation', S + 'surface.py, ' + S + 'profile.py, ' + S + 'base.py'),
   ('in-place branch of the Gaussian filter', S + 'filter.py: GaussianFilter.apply')],
  ['heights, step sizes, extents, identity of the returned object'],
  'exhaustive enumeration of operations x arguments x inputs (and operation pairs) on the real code',
  'Exhaustive over the stated alphabet; bit-exact comparison.'),
P('C04', 'Cropping, zooming and slicing keep exactly the selected points and scale',
  'A crop contains exactly the data points whose rounded positions lie inside the (inclusive) box, with the origin of '
  'y at the bottom of the array, a zoom the centred part of the size divided by the factor, and a slice the selected '
  'rows and columns with the step sizes multiplied by the strides; heights are unchanged and boxes beyond the limits '
  'are rejected. After every operation width and height (length for profiles) equal the number of intervals times the '
  'step size.',
  ['inputs', 'configurations', 'histories'],
  'all boxes of small surfaces in pixels and in length units, zoom factors, strided and reversed slices, and chains '
  'of two such operations',
  'the tests crop one square surface with one box; off-by-one errors appear only for particular rows, columns and '
  'step sizes',
  [S + 'surface.py', S + 'profile.py'],
  [('cropping', S + 'surface.py: Surface.crop; ' + S + 'profile.py: Profile.crop'),
   ('zooming', S + 'surface.py: Surface.zoom; ' + S + 'profile.py: Profile.zoom'),
   ('slicing', S + 'surface.py: Surface.__getitem__')],
  ['heights, step sizes and extents of the result'],
  'exhaustive enumeration of boxes, factors and slices against an index-set reference model',
  'Every box of surfaces up to the size bound; reference model on index sets with distinct heights.'),
P('C05', 'Non-measured points are never treated as heights',
  'Parameters and operations that are not defined for data with non-measured points raise an error if there is at '
  'least one of them, wherever it is located; those that support them (centring, zeroing, inverting, levelling, '
  'removal of outliers, thresholding, statistics) ignore their position, compute from the measured points only and '
  'return them unchanged as non-measured points. Filling by nearest neighbour leaves measured points unchanged and '
  'gives every other point the height of one of its nearest measured neighbours.',
  ['inputs', 'configurations'],
  'all subsets of non-measured points of small surfaces and profiles x all parameters and operations',
  'the tests place one or a few NaN values and cover a fraction of the parameters',
  [S + 'base.py', S + 'surface.py', S + 'profile.py', S + 'abbottfirestone.py', S + 'autocorrelation.py',
   S + 'fourier.py'],
  [('guard against non-measured points', S + 'base.py: no_nonmeasured_points'),
   ('guards of the function objects', S + 'abbottfirestone.py, ' + S + 'autocorrelation.py, ' + S + 'fourier.py'),
   ('NaN-aware operations', S + 'base.py: center, zero, invert, remove_outliers, threshold'),
   ('filling', S + 'surface.py: fill_nonmeasured')],
  ['raised errors', 'heights of results'],
  'exhaustive enumeration of missing-point patterns x parameters and operations on the real code',
  'All masks of a small grid; the values of tolerant operations are compared with references computed from the '
  'measured points only.'),
P('C06', 'Centring, zeroing, inverting and levelling do exactly what they promise',
  'Centring gives a zero mean, zeroing a zero minimum and inverting mirrors heights so that the extrema are kept, all '
  'without changing any height difference except for its sign when inverting; levelling and polynomial detrending '
  'subtract exactly the least-squares polynomial of the given total degree fitted to the measured points. The '
  'returned trend plus the detrended result is the original.',
  ['inputs', 'configurations'],
  'small surfaces and profiles of all shapes, step sizes, offsets and scales, all small sets of non-measured points, '
  'degrees 1 to 3',
  'the tests check levelling of a single plane and compare it with itself',
  [S + 'base.py', S + 'surface.py', S + 'profile.py'],
  [('simple operations', S + 'base.py: center, zero, invert'),
   ('least-squares trend', S + 'surface.py: detrend_polynomial; ' + S + 'profile.py: detrend_polynomial')],
  ['heights of results and trends'],
  'exhaustive enumeration of inputs against exact and independent least-squares references',
  'Bounded shapes and an alphabet of heights; the least-squares optimum is verified by an independent basis and by '
  'orthogonality of the residuals.'),
P('C07', 'Height parameters follow their definitions for every input',
  'Sa, Sq, Sp, Sv, Sz, Ssk, Sku and Ra, Rq, Rt, Rsk, Rku equal their defining sums over all points about the mean, '
  'and Rp, Rv, Rz the averages over the requested number of consecutive sections of the profile about the mean of the '
  'whole profile, for any shape, offset, number type and memory layout of the height data. Minimum, maximum, mean, '
  'median and standard deviation describe the measured points.',
  ['inputs', 'configurations'],
  'all height matrices over a small alphabet of values up to the size bound, shapes, offsets, scales, number types, '
  'memory layouts, every number of sections',
  'the tests compare two synthetic surfaces with stored values',
  [S + 'surface.py', S + 'profile.py', S + 'base.py'],
  [('areal height parameters', S + 'surface.py: height_parameters'),
   ('profile height parameters', S + 'profile.py: Ra ... Rku, _sectioned_data')],
  ['returned values'],
  'exhaustive enumeration of small height matrices against exact rational arithmetic',
  'All matrices over the value alphabet up to the size bound; exact reference with fractions.'),
P('C08', 'Hybrid parameters follow their definitions for every input',
  'Sdq is the root of the summed squared slopes between neighbouring points in x and y divided by the number of '
  'points, Rdq the root mean square slope of the profile, the surface area the sum of the areas of the two triangles '
  'that are spanned between the four corner points of every cell, the projected area the product of the extents, and '
  'Sdr their relative difference in percent. Each holds for any shape and any, also unequal, step sizes.',
  ['inputs', 'configurations'],
  'all height matrices over a small alphabet of values up to the size bound, non-square shapes, equal and unequal '
  'step sizes, offsets and scales',
  'the tests use square surfaces with equal step sizes',
  [S + 'surface.py', S + 'profile.py'],
  [('hybrid parameters', S + 'surface.py: projected_area, surface_area, Sdr, Sdq; ' + S + 'profile.py: Rdq')],
  ['returned values'],
  'exhaustive enumeration of small height matrices and step sizes against an independent reference',
  'All matrices over the value alphabet up to the size bound. The projected area of the code, pinned by the existing '
  'tests, misses one row and one column of cells, and its surface area counts the upper left triangle of every cell '
  'twice: recorded as known findings.'),
P('C09', 'Functional parameters are read off one consistent material ratio curve',
  'Material ratio and height are related by the distribution of the heights (Smr/Smc, Rmr/Rmc), Sk, Smr1 and Smr2 '
  'come from the least-squares line through the 40 % window of smallest secant slope, Spk, Svk, Sak1 and Sak2 from '
  'areas equivalent to the hills and dales beyond the core, Spkx and Svkx from the extreme heights, and Vm, Vv, Vmp, '
  'Vmc, Vvv, Vvc are areas enclosed by the curve at the requested ratios; profiles have the same parameters under '
  'their names. This holds for all ratios, heights and argument forms.',
  ['inputs', 'configurations'],
  'an alphabet of height distributions, shapes, ratios and heights for every functional parameter of surfaces and '
  'profiles, passed by position and by keyword',
  'the tests compare two synthetic surfaces with stored values at default arguments',
  [S + 'abbottfirestone.py', S + 'base.py', S + 'surface.py', S + 'profile.py'],
  [('material ratio curve and equivalent line', S + 'abbottfirestone.py: AbbottFirestoneCurve'),
   ('functional parameters', S + 'base.py: Vmp ... Vv; ' + S + 'surface.py: Sk ... Sdc; ' + S + 'profile.py')],
  ['returned values'],
  'exhaustive enumeration of distributions x arguments against an independent reference curve',
  'Exhaustive over the alphabet of distributions and the grid of ratios; independent closed-form evaluation of the '
  'sampled curve.'),
P('C10', 'Autocorrelation function, Sal and Str follow their definitions',
  'The autocorrelation at every lag is the mean product of the centred heights of all point pairs at that lag; Sal is '
  'the shortest and the denominator of Str the longest distance, in length units, at which it decays from the centre '
  'to the fraction s of its central value within the connected central lobe. This holds for any shape, any, also '
  'unequal, step sizes and any s.',
  ['inputs', 'configurations'],
  'small surfaces of all shapes, unequal step sizes, textures in several directions, thresholds s',
  'the tests compare two synthetic surfaces with stored values at s=0.2',
  [S + 'autocorrelation.py', S + 'mathutils.py', S + 'surface.py'],
  [('unbiased autocorrelation', S + 'autocorrelation.py: calculate_autocorrelation'),
   ('decay lengths', S + 'autocorrelation.py: _calculate_decay_lengths')],
  ['autocorrelation data, Sal, Str'],
  'exhaustive enumeration of shapes, step sizes, textures and thresholds against a direct-sum reference',
  'Exhaustive over the alphabet; the reference evaluates the definition by direct summation over all lags.'),
P('C11', 'Periodic parameters recover the texture of sinusoidal grooves',
  'For a sinusoidal texture of integer frequencies the period, its x and y components and the dominant wavelength '
  'equal those of the texture up to the resolution of the sampling, orientation gives its angle to the vertical axis '
  'with its sign, the texture direction the direction of its wave vector, depth the peak-to-valley height and aspect '
  'ratio depth over period. This holds for all wave vectors, phases, offsets, amplitudes, shapes and step sizes.',
  ['inputs', 'configurations'],
  'all wave vectors up to the frequency bound x phases x offsets x shapes x step sizes',
  'the tests use a handful of angles on square surfaces with equal step sizes',
  [S + 'fourier.py', S + 'surface.py', S + 'mathutils.py', S + 'profile.py'],
  [('Fourier peaks', S + 'fourier.py: _get_peak_dx_dy, period, orientation, dominant_wavelength, Std'),
   ('refined orientation', S + 'surface.py: _orientation_refined'),
   ('depth from sinusoid fits', S + 'surface.py: depth, aspect_ratio')],
  ['returned values'],
  'exhaustive enumeration of wave vectors, phases, shapes and step sizes against the analytic values',
  'All integer wave vectors up to the bound; tolerance (n-1)/n in lengths because the library relates n intervals '
  'to n-1 step sizes.'),
P('C12', 'A saved surface is read back unchanged',
  'Writing a surface to any supported format and reading it, through a path or a buffer and with every option of the '
  'format, returns the same shape, step sizes, non-measured points and heights up to the resolution of the number '
  'format of the file, as well as the image layers where the format stores them. Writing never changes the surface '
  'and the file does not depend on the memory layout of the heights.',
  ['inputs', 'configurations', 'programs'],
  'all writers x options x height types x memory layouts x shapes x sets of non-measured points x offsets and scales '
  'x path or buffer, and chains of two conversions',
  'the tests write one random square surface per format',
  [S + 'file/common.py', S + 'file/al3d.py', S + 'file/sdf.py', S + 'file/sflz.py', S + 'file/sur.py',
   S + 'file/tmd.py', S + 'surface.py'],
  [('writers and readers', S + 'file/al3d.py, sdf.py, sflz.py, sur.py, tmd.py'),
   ('dispatch', S + 'file/common.py: FileHandler')],
  ['the surface read back', 'the surface written'],
  'exhaustive enumeration of writer configurations and inputs, round trip on the real code',
  'Exhaustive over the stated alphabet with format-specific resolution bounds derived from the file layouts.'),
P('C13', 'The file format is determined by the request and the content',
  'An explicitly given format decides how a surface is written, otherwise the suffix does, in either case regardless '
  'of upper or lower case; unsupported formats raise an unsupported-format error. On reading, the content decides if '
  'the hint (format or suffix) is missing or wrong: every file with a recognisable signature is read correctly, from '
  'a path or from the current position of a buffer, which is left where it was.',
  ['configurations', 'inputs'],
  'all pairs of (format of the content, hint given as format or suffix) x path or buffer x start position in the '
  'buffer x case of the hint, files of all readable formats',
  'the tests read each sample file once under its own name',
  [S + 'file/common.py', S + 'surface.py'],
  [('dispatch by hint and magic bytes', S + 'file/common.py: FileHandler.read, FileHandler.write'),
   ('buffer position', S + 'file/common.py: open_file_like')],
  ['the surface read', 'buffer position', 'raised errors'],
  'exhaustive enumeration of content format x hint x channel on the real code',
  'All pairs of formats; contents are small files of every format, written by the library or synthesised.'),
P('C14', 'A truncated file is never mistaken for different data',
  'Reading any prefix of a valid binary (or ASCII SDF) file either raises an error or returns exactly the surface '
  'stored in the complete file; it never returns altered or shortened heights and always comes to an end. Afterwards '
  'the complete file can still be read. Writing that fails at any point (no space left) raises the error, leaves the '
  'surface unchanged, and the incomplete file is treated in the same way.',
  ['crash_points', 'fault_sequences'],
  'every prefix (every crash point of a sequential write) of files of every binary format; every number of bytes after '
  'which writing fails',
  'the tests read intact files only',
  [S + 'file/common.py', S + 'file/sur.py', S + 'file/sflz.py', S + 'file/al3d.py', S + 'file/sdf.py',
   S + 'file/tmd.py', S + 'file/fits.py'],
  [('array reads', S + 'file/common.py: read_array, Layout'), ('readers', S + 'file/*.py')],
  ['the surface read or the raised error'],
  'exhaustive fault enumeration: every truncation point of files of every format',
  'Every prefix length of small files of every format, with and without non-measured points, by path and buffer; the '
  'writers run against a buffer that fails after every number of bytes.',
  level='fault_enumeration'),
P('C15', 'Every readable format is decoded according to its layout',
  'For each format that can be read, the returned heights in micrometres, their orientation, the step sizes, '
  'non-measured points and image layers are those encoded in the file, for any numbers of rows and columns, units, '
  'scales, offsets and number types that the format allows, and in every process the same.',
  ['inputs', 'configurations'],
  'synthesised files of every readable format x shapes x units x scales x number types x non-measured points x image '
  'layers',
  'the tests read one sample per format (most are not square-safe or unit-safe) or none',
  [S + 'file/'],
  [('readers', S + 'file/*.py'), ('unit conversion', S + 'file/common.py: get_unit_conversion')],
  ['the surface and the image layers read'],
  'exhaustive enumeration of file contents synthesised from independent encoders',
  'Exhaustive over the stated alphabet per format; encoders written independently from the format descriptions.'),
P('C16', 'Batch results do not depend on scheduling',
  'Executing a batch in parallel gives for every file exactly the row that sequential execution and direct evaluation '
  'of the same steps on the loaded surface give, whatever the interleaving of the workers; executing it again gives '
  'the same result. The completion callback is invoked once per file.',
  ['schedules', 'programs'],
  'all interleavings of the worker threads up to the preemption bound and all completion orders, for batches with '
  'shared arguments, shared parameters and failing files',
  'the tests run one schedule, whatever the machine happens to choose',
  [S + 'batch.py', S + 'cache.py', S + 'surface.py'],
  [('worker task', S + 'batch.py: _task'), ('dispatch to the pool', S + 'batch.py: Batch.execute')],
  ['rows of the resulting table', 'callback invocations'],
  'stateless model checking of the real code under a controlled scheduler with preemption bounding',
  'All schedules with at most the stated number of preemptions at the granularity of source lines of the library.',
  [('registered steps', 'operations and parameters shared by all workers', S + 'batch.py: Batch')]),
P('C17', 'A batch computes exactly the registered steps and labels them',
  'For every file the table contains, under the registered or custom name, the value of every registered parameter '
  'evaluated at its place in the chain of operations (after all operations if the chaining order is not preserved); '
  'failing parameters become missing values or raise, as requested, without affecting other values. Additional data '
  'is joined to the matching file, and values encoded in file names are extracted by the template with their types. '
  'A batch of a directory holds all of its files that have a requested extension, in upper or lower case.',
  ['programs', 'configurations', 'inputs'],
  'all chains of steps up to the length bound x chaining mode x error mode x input kind; all templates of up to three '
  'fields x file names',
  'the tests run a few fixed chains and three templates',
  [S + 'batch.py'],
  [('steps', S + 'batch.py: _Operation, _Parameter, _CustomParameter, _task'),
   ('table construction', S + 'batch.py: Batch.execute'), ('templates', S + 'batch.py: FilenameParser')],
  ['the resulting table', 'raised errors'],
  'exhaustive enumeration of step sequences and templates against direct evaluation',
  'All programs over the step alphabet up to the length bound.'),
P('C18', 'Concurrent evaluation of one topography gives the sequential values',
  'Evaluating parameters of the same surface or profile from several threads returns, in every interleaving, the '
  'values of sequential evaluation on a fresh object.',
  ['schedules'],
  'all pairs of parameters evaluated by two threads on a shared object, all interleavings up to the preemption bound',
  'the tests are single threaded',
  [S + 'cache.py', S + 'surface.py', S + 'abbottfirestone.py', S + 'autocorrelation.py', S + 'fourier.py'],
  [('per-instance method cache', S + 'cache.py: cache')],
  ['returned values'],
  'stateless model checking of the real code under a controlled scheduler with preemption bounding',
  'All schedules with at most the stated number of preemptions at the granularity of source lines.'),
P('C19', 'The command line converts and processes files as requested',
  'Converting a file or every supported file of a directory writes, in the requested format (the suffix of an output '
  'file, else the format option), a file holding the same surface, with image layers unless skipped, as far as the '
  'format can hold them; other files are ignored, unsupported formats write nothing, and every file of a directory '
  'has an output of its own that overwrites no other file to be converted. Processing options apply '
  'filling, levelling, centring, zeroing, thresholding, outlier removal and filtering in that order, contradictory '
  'options are rejected, and a report holds the parameters of the processed surface.',
  ['configurations', 'inputs'],
  'all combinations of input kind, output suffix, format option, flags and directory contents; all subsets of the '
  'processing options',
  'there are no tests of the command line',
  [S + 'cli.py'],
  [('conversion', S + 'cli.py: convert, convert_file'),
   ('processing', S + 'cli.py: perform_surface_operations, common_options')],
  ['files written', 'surface after processing', 'exit status'],
  'exhaustive enumeration of command-line configurations on the real code',
  'All combinations of the stated options and inputs, in scratch directories.'),
P('C20', 'Arithmetic and equality of surfaces are pointwise and consistent',
  'Sums, differences, products and quotients of surfaces with each other or with numbers act point by point, keep the '
  'step sizes and never change the operands (a number may be the left operand of all but the quotient); operands of '
  'different shape or step sizes are rejected. Equality holds exactly if shape, step sizes, non-measured points and heights (within 1e-10) agree, '
  'is symmetric, and equal surfaces have equal hashes.',
  ['inputs', 'configurations'],
  'all operators x operand kinds and orders x shapes x step sizes x sets of non-measured points; all pairs from an '
  'alphabet of surfaces for equality',
  'the tests check one surface per operator',
  [S + 'surface.py'],
  [('arithmetic', S + 'surface.py: _arithmetic_operation'), ('equality', S + 'surface.py: __eq__, __hash__')],
  ['heights and step sizes of results', 'truth value of comparisons', 'hashes'],
  'exhaustive enumeration of operand pairs against a pointwise reference',
  'Exhaustive over the stated alphabet of operands.'),
P('C21', 'Extracted profiles contain the heights along the requested line',
  'A horizontal (vertical) profile holds the heights of the row (column) closest to the given position, counted from '
  'the first row (column), or the mean of the requested number of parallel rows or columns around it as far as they '
  'lie on the surface, spaced by the requested distance in whole points, at least one, with the step size along it. An '
  'oblique profile runs from the data point closest to the start to that closest to the end with evenly spaced, '
  'spline-interpolated heights and their distance as length; positions outside the surface are rejected.',
  ['inputs', 'configurations'],
  'all positions, averages and averaging distances, all start and end points of small non-square surfaces with equal '
  'and unequal step sizes',
  'the tests extract profiles of one surface at three positions',
  [S + 'surface.py', S + 'profile.py'],
  [('profile extraction', S + 'surface.py: get_horizontal_profile, get_vertical_profile, get_oblique_profile')],
  ['heights, step size and length of the profile'],
  'exhaustive enumeration of positions and averages against an index-set reference',
  'Every grid position and positions between grid points of surfaces up to the size bound.'),
P('C22', 'Gaussian filtering has the promised wavelength response',
  'Lowpass, highpass and bandpass filters have 50 % transmission at their cutoff wavelengths in length units along '
  'each axis, whatever the step sizes: the lowpass result is the Gaussian-weighted mean of the surroundings with the '
  'chosen treatment of edges, lowpass and highpass add up to the original, the bandpass is the lowpass followed by '
  'the highpass at the larger cutoff and "both" returns highpass and lowpass. Invalid types or cutoff pairs are rejected '
  'without changing the object.',
  ['inputs', 'configurations'],
  'all filter types x cutoffs x edge modes x shapes x step sizes on unit impulses at every position, surfaces and '
  'profiles',
  'the tests check three cutoffs on one square surface',
  [S + 'filter.py', S + 'base.py'],
  [('Gaussian filter', S + 'filter.py: GaussianFilter'), ('filter types', S + 'base.py: filter')],
  ['heights of results'],
  'exhaustive enumeration of impulses x filter configurations against an independent kernel reference',
  'All impulse positions of small surfaces, which determines a linear filter completely.'),
P('C23', 'Thresholding and outlier removal drop exactly the specified points',
  'Thresholding turns exactly those points into non-measured points that lie above the height at the upper or below '
  'the height at the lower material ratio of the measured points, and outlier removal exactly those farther from the '
  'mean (median) than n standard deviations (median distances). All other points keep their heights, non-measured '
  'points stay so, and thresholds that remove everything are rejected.',
  ['inputs', 'configurations'],
  'all height vectors over a small alphabet with ties and non-measured points x thresholds (scalar and pair) x n x '
  'method, surfaces and profiles',
  'the tests check two thresholds on one surface',
  [S + 'base.py', S + 'mathutils.py'],
  [('thresholding', S + 'base.py: threshold'), ('outliers', S + 'base.py: remove_outliers')],
  ['set of non-measured points', 'heights of the others'],
  'exhaustive enumeration of height vectors and arguments against a set reference',
  'All vectors over the alphabet up to the length bound.'),
P('C24', 'Step height and cavity evaluation recover two-level surfaces',
  'For a surface with two clearly separated levels the step height is the difference of the '
  'medians of the two levels, the cavity volume is the volume below the upper median over the points lower than it by '
  'more than the given fraction of the step height, and step-height levelling subtracts the centred least-squares '
  'plane of the upper level. This holds wherever the lower level is located, for any sizes, step sizes, offset and '
  'scale.',
  ['inputs', 'configurations'],
  'all rectangular cavities of small surfaces x levels x offsets x scatter x step sizes x thresholds',
  'the tests evaluate one square cavity',
  [S + 'surface.py', S + 'mathutils.py'],
  [('segmentation', S + 'mathutils.py: otsu_threshold; ' + S + 'surface.py: _stepheight_get_mask'),
   ('step height', S + 'surface.py: stepheight, cavity_volume, stepheight_level')],
  ['returned values', 'heights of the levelled surface'],
  'exhaustive enumeration of cavities against a reference with the known levels',
  'All rectangular lower levels of surfaces up to the size bound.'),
P('C25', 'Homogeneity is one minus the Gini coefficient over the unit cells',
  'Homogeneity divides the surface into complete, non-overlapping cells with the period as side length, evaluates '
  'each given parameter on each cell and returns the mean over the parameters of one minus the Gini coefficient of '
  'the values, rounded to four digits. It does not depend on the order of the cells, and parameters without '
  'non-negative scale are rejected.',
  ['inputs', 'configurations'],
  'all assignments of cell patterns to small grids of cells x parameters x cell sizes x step sizes',
  'the tests evaluate two surfaces with default arguments',
  [S + 'surface.py'],
  [('homogeneity', S + 'surface.py: homogeneity')],
  ['returned value'],
  'exhaustive enumeration of cell arrangements against a pairwise Gini reference',
  'All arrangements of the cell alphabet on grids up to the bound.'),
P('C26', 'Rotation and alignment keep geometry and invent no heights',
  'Rotating counterclockwise by an angle yields the heights found at the rotated positions within the largest '
  'contained rectangle of the same aspect ratio, without points from outside the surface and with the step sizes '
  'kept (exchanged by odd multiples of 90 degrees); multiples of 90 degrees move points without interpolating. Aligning rotates such that the dominant texture becomes '
  'parallel to the chosen axis.',
  ['inputs', 'configurations'],
  'all angles of a grid over the full circle x shapes x step sizes on planes and textures',
  'the tests rotate one square surface by a few angles',
  [S + 'surface.py'],
  [('rotation', S + 'surface.py: rotate'), ('alignment', S + 'surface.py: align')],
  ['heights, step sizes and extents', 'orientation after alignment'],
  'exhaustive enumeration of angles and shapes against the analytic rotated plane',
  'All angles of the grid; linear heights are reproduced exactly by spline interpolation, which makes the reference '
  'analytic.'),
P('C27', 'Parameters transform with units, offset, mirroring and transposition',
  'No roughness parameter depends on a constant height offset; multiplying all heights by a positive factor '
  'multiplies height parameters by it, and scaling the step sizes scales lateral parameters, with dimensionless '
  'parameters unchanged. Mirroring changes no parameter except those of direction and transposing (with exchanged '
  'step sizes) neither, and inverting exchanges peaks and valleys. Height and functional parameters depend only on the '
  'distribution of the heights, not on their arrangement. Levelling, filtering, thresholding and outlier removal '
  'commute with these transformations. Sdr and depth are not claimed under mirroring, since the surface area is that '
  'of one triangle per cell and depth samples rows from the first one on.',
  ['inputs', 'configurations'],
  'all parameters x an alphabet of surfaces x transformations of offset, height scale, lateral scale, mirroring, '
  'transposition and inversion, and compositions of two transformations',
  'the tests contain no metamorphic relations',
  [S + 'surface.py', S + 'profile.py', S + 'abbottfirestone.py', S + 'autocorrelation.py', S + 'fourier.py'],
  [('parameters', S + 'surface.py, ' + S + 'profile.py')],
  ['returned values'],
  'exhaustive enumeration of parameters x transformations (and pairs) on the real code, metamorphic oracle',
  'Exhaustive over the stated alphabet of surfaces and transformations.'),
P('C28', 'Collected parameters equal the individual evaluations',
  'Evaluating several parameters at once returns exactly the requested parameters, in any order and combination, each '
  'with the value of its individual evaluation with default arguments; without a request it returns all standard '
  'parameters, and an undefined name is rejected. Synonymous parameters agree and the returned collections can be '
  'changed without affecting later evaluations.',
  ['inputs', 'configurations', 'histories'],
  'all subsets and orders of parameter names up to the bound, surfaces and profiles, modification of the result in '
  'between',
  'the tests request three fixed lists',
  [S + 'base.py', S + 'surface.py', S + 'profile.py'],
  [('collection', S + 'base.py: roughness_parameters; ' + S + 'surface.py: height_parameters')],
  ['returned dictionaries'],
  'exhaustive enumeration of requests against individual evaluation on fresh objects',
  'All names, ordered pairs (quick) and triples of a subset (thorough).'),
P('C29', 'Plots show the data at its true extent and drawing changes nothing',
  'Every plot shows what the object holds: the two-dimensional view the heights (or the selected image layer) between '
  'zero and the width and height with non-measured points in the mask colour and the requested colour limits, the '
  'profile plot the heights over their positions, the autocorrelation plot the function over the lags, the plot of the '
  'Fourier transform the magnitudes over the frequencies cropped to the requested limits, the plots of the material '
  'ratio curve the distribution of the heights and the functional parameters, the three-dimensional view the points of '
  'the surface seen from the requested direction. Supplied axes are used, requested files are written, and drawing never '
  'changes the object or the evaluated depth.',
  ['inputs', 'configurations'],
  'all kinds of plots on all shapes of the bound, step sizes, number types and non-measured points with all display '
  'options',
  'the tests never look at what is drawn',
  [S + 'surface.py', S + 'profile.py', S + 'base.py', S + 'plotting.py', S + 'fourier.py', S + 'autocorrelation.py',
   S + 'abbottfirestone.py', S + 'image.py'],
  [('two-dimensional view', S + 'surface.py: plot_2d, show'), ('profile', S + 'profile.py: plot_2d'),
   ('Fourier transform', S + 'fourier.py: plot, plot_angular_power_spectrum'),
   ('autocorrelation', S + 'autocorrelation.py: plot_autocorrelation'),
   ('material ratio', S + 'abbottfirestone.py: plot, visual_parameter_study'),
   ('three-dimensional view', S + 'plotting.py: plot_3d'), ('images', S + 'image.py: Image')],
  ['matplotlib axes', 'scene given to the renderer', 'image files written'],
  'exhaustive enumeration of objects and display options on the real code, observed at the artists',
  'All plots x shapes up to 7 x 4 x options of the stated grids; the renderer is a recording stand-in.'),
P('C30', 'Damaged, contradictory and unsupported files are rejected, not misread',
  'A file whose signature, required header keys, sizes that contradict each other, or checksummed content is damaged is '
  'rejected with an error, and so is a file whose content cannot be represented as a surface (several objects, other kinds '
  'of data, missing height data, unknown units or number types, archives with missing or exchanged members). Damage of parts '
  'without a meaning for the heights never changes heights or step sizes, and damage of one stored height changes only that '
  'point. Reading a damaged file always ends, whatever the format hint, and the intact file is read as before afterwards.',
  ['inputs', 'fault_sequences'],
  'every single damaged bit of small files of every format, every missing, renamed or changed member of the archives, and '
  'the enumerated unsupported contents',
  'the tests read intact files only',
  [S + 'file/', S + 'surface.py'],
  [('selection and fallback', S + 'file/common.py: FileHandler.read'), ('checks of the readers', S + 'file/*.py: read_*')],
  ['Surface.load from buffers and paths'],
  'exhaustive enumeration of all single bit flips and of structural damage on the real readers',
  'All bit flips of about 36 files of up to 3 kB (FITS: 14 kB), read with and without image layers and hints.',
  level='fault_enumeration'),
P('C31', 'Texts, dates and images in files are reported as recorded and harm nothing',
  'Every text a file records (title, comment, operator, names of devices, units of other quantities, user-defined entries) is '
  'reported in the metadata exactly as recorded, in the encoding of the file or the requested one, whatever characters or words '
  'it contains; every date is reported as that date; every image layer has the recorded pixel values and can be saved as an image '
  'file. None of them ever makes the file unreadable or changes heights or step sizes, and texts given to a writer come back.',
  ['inputs'],
  'all texts of the length of every text field over its alphabet, all characters at every position, all dates of several years',
  'the tests read files with one fixed set of texts and compare heights',
  [S + 'file/', S + 'image.py'],
  [('decoding of text fields', S + 'file/common.py: decode, Entry, Layout'), ('metadata of the readers', S + 'file/*.py: read_*'),
   ('images', S + 'image.py')],
  ['Surface.load(...).metadata and image_layers', 'Image.save', 'Surface.save(comment=...)'],
  'exhaustive enumeration of texts, dates and images of bounded size on the real readers and writers',
  'All lengths of every text field, every printable character in four positions, 4 years of dates, every minute of a day.'),
P('C32', 'A failed read or write is reported and leaves everything else as it was',
  'When a file cannot be written completely (the disk is full after any number of bytes, or any call of the target fails) saving '
  'a surface, an image or the table of a batch, and converting files, report an error; nothing is reported as written that is '
  'not there completely. When any part of a source cannot be read, loading raises an error or returns the surface that is in the '
  'file. In both cases the surface is unchanged, nothing stays open, file objects of the caller are not closed, and the same '
  'operation succeeds afterwards when the cause has gone.',
  ['crash_points', 'fault_sequences'],
  'every byte after which a disk can be full and every call of the target or source that can fail',
  'the tests have no failing files',
  [S + 'file/', S + 'surface.py', S + 'batch.py', S + 'cli.py', S + 'image.py'],
  [('files and buffers', S + 'file/common.py: open_file_like, write_array, read_array'), ('writers', S + 'file/*.py: write_*'),
   ('fallback between readers', S + 'file/common.py: FileHandler.read'), ('conversion', S + 'cli.py: convert')],
  ['Surface.save and Surface.load with paths and file objects', 'Batch.execute(saveto=...)', 'surfalize convert'],
  'exhaustive injection of one fault (or a lasting one) at every byte and every call',
  'All limits of small files; for files of several I/O blocks the first and last 150 bytes and 3 bytes around each block; every '
  'block read of small files.', level='fault_enumeration'),
P('C33', 'Results do not depend on the number type or memory layout of the heights',
  'A surface or profile made of whole-numbered heights gives the same parameters, the same profiles and the same results of all '
  'operations, as copies and in place and one after the other, whether the heights are given as signed or unsigned integers of '
  'any size, single or double precision, in native or foreign byte order, and whether the array is contiguous in rows or '
  'columns, strided, reversed, read-only or not aligned. The array that was given keeps its values unless the object edits it in '
  'place.',
  ['inputs', 'histories'],
  'all number types and layouts x all parameters x all operations and pairs of operations',
  'the tests use arrays of double precision in C order',
  [S + 'surface.py', S + 'profile.py', S + 'base.py', S + 'filter.py', S + 'abbottfirestone.py', S + 'autocorrelation.py',
   S + 'fourier.py', S + 'mathutils.py'],
  [('storing the heights', S + 'surface.py: Surface.data; ' + S + 'profile.py: Profile.data'), ('operations', S + 'base.py')],
  ['Surface(array, step_x, step_y)', 'Profile(array, step)'],
  'explicit enumeration of number types, layouts and histories, compared with the same history in double precision',
  'All single operations and parameters; pairs of operations of every kind for 4 (thorough: 30) types and layouts.'),
P('C34', 'Copied and pickled objects equal the original and are independent of it',
  'Whatever has been done to a surface or profile before, it can be copied (copy.copy, copy.deepcopy) and pickled with every '
  'protocol; the copy has the same heights, dimensions and parameters, and editing the copy or the original never changes the '
  'other one or leaves it with parameters of other heights. Deep and pickled copies have their own metadata and image layers. '
  'Curves, spectra and batch results can be copied and pickled likewise, and steps registered or files added after a batch has '
  'been deep-copied belong to the one on which they were registered.',
  ['histories'],
  'all histories before copying x ways of copying x edits of either object',
  'no test copies or pickles anything',
  [S + 'base.py', S + 'cache.py', S + 'batch.py', S + 'mathutils.py', S + 'abbottfirestone.py', S + 'autocorrelation.py',
   S + 'fourier.py'],
  [('copying', S + 'base.py: BaseTopography.__copy__; ' + S + 'batch.py: BatchResult.__reduce__'),
   ('methods bound to a batch', S + 'batch.py: Batch._create_batch_method')],
  ['copy.copy', 'copy.deepcopy', 'pickle.dumps, pickle.loads', 'parameters and heights of both objects'],
  'exhaustive exploration of histories with copies on the real code',
  'Histories of one event for all inputs, of two events for one input (thorough: all pairs and selected triples).'),
P('C35', 'Settings of the process neither influence results nor are changed',
  'The results of parameters, operations, readers, writers, batches and commands do not depend on settings of the surrounding '
  'process: warning filters, error handling and number format of numpy, random generators, matplotlib and pandas options, decimal '
  'context, locale, time zone, working directory, environment variables, interpreter options (-O, -X dev, hash seed). Conversely, '
  'importing or using the library, also from several threads at once, leaves all of these as they were and leaves no files open '
  'and no temporary files or threads behind; with settings that turn warnings or floating point errors into exceptions an action '
  'may raise, but never returns something else.',
  ['histories', 'schedules'],
  'all pairs of an action and a setting; all interleavings of concurrent loads at warning filters',
  'tests run in one process with one configuration and never look at its state',
  [S + 'file/common.py', S + 'surface.py', S + 'profile.py', S + 'mathutils.py', S + 'abbottfirestone.py', S + 'batch.py',
   S + 'cli.py', S + 'plotting.py'],
  [('warnings suppressed while readers are tried', S + 'file/common.py: FileHandler.read'),
   ('plots', S + 'plotting.py'), ('commands', S + 'cli.py')],
  ['results of the actions', 'warnings.filters, numpy.geterr, rcParams, environment, working directory, open files'],
  'exhaustive enumeration of actions x settings and of thread schedules on the real code',
  'Schedules with two preemptions in file/common.py, one elsewhere; 27 settings; 12 ways of starting the interpreter.'),
]

PENDING = ('no check has been built for this property yet; model checking applies to it (see DESIGN.md)')


def main():
    with open(os.path.join(VERIF, 'properties.jsonl'), 'w', encoding='utf-8') as f:
        for p in PROPS:
            assert len(p['title']) <= 80, p['id']
            anchors = dict(files=p['files'], mechanism=[dict(name=n, where=w) for n, w in p['mechanism']],
                           observe_at=p['observe'], hook_needed=None)
            if p['state']:
                anchors['state'] = [dict(name=n, meaning=m, where=w) for n, m, w in p['state']]
            f.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'],
                                    quantifier=dict(over=p['over'], text=p['text']), why_tests_cant=p['tests'],
                                    anchors=anchors), ensure_ascii=False) + '\n')
    checks, missing = [], []
    for p in PROPS:
        if os.path.exists(os.path.join(VERIF, 'mc', 'checks', p['id'].lower() + '.py')):
            checks.append(dict(property=p['id'], quick_cmd=f'bash check.sh {p["id"]} --tier quick',
                               thorough_cmd=f'bash check.sh {p["id"]} --tier thorough',
                               technique='model checking: ' + p['technique'], level=p['level'],
                               level_note=p['note']))
        else:
            missing.append(dict(property=p['id'], reason=PENDING))
    manifest = dict(version=1, setup_cmd='bash setup.sh', checks=checks, not_applicable=missing)
    with open(os.path.join(VERIF, 'MANIFEST.json'), 'w', encoding='utf-8') as f:
        json.dump(manifest, f, indent=1, ensure_ascii=False)
        f.write('\n')


main()
