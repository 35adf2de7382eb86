# The property list: P(id, title, statement, over, quantified text, why tests can't, files, mechanism)
PROPS = []
def P(id, title, statement, text, why, files, mech, over=("inputs",), tech="", note=""):
    PROPS.append(dict(id=id, title=title, statement=statement, over=list(over), text=text, why=why,
                      files=files, mech=mech, tech=tech, note=note))

CORE = ["include/vif/core/vec.hpp", "include/vif/core/bits/access.hpp"]
P("V01", "A vector's dimensions always describe its content",
  "After any sequence of vector operations (construction, copy, move, assignment, resize, clear, reserve, push_back, reform, flatten, conversion between element types), a vector's size equals the product of its dimensions, and its dimensions and elements are those a plain reference model prescribes. Moving from, or failing an operation on, a vector leaves it in such a consistent state too.",
  "every finite history of construction / copy / move / resize / push_back / reform / flatten / conversion operations, for 1 to 3 dimensions and numeric, boolean and string elements",
  "the unit tests run a few fixed sequences; the invariant must hold after every history, including empty, moved-from and self-assigned vectors",
  CORE, [("vec<Dim,T> constructors, assignment, resize/clear/push_back/reform/flatten", "include/vif/core/vec.hpp")],
  over=("histories", "inputs"), tech="stateful model-based testing against a std::vector model")
P("V02", "Indexing selects exactly the row-major elements, or is an error",
  "Every way of addressing a vector or a view (flat or one index per dimension; scalar, negative, range, index list, placeholder, stride; checked or unchecked; const or not) yields exactly the elements that row-major order prescribes, in order and with the documented dimensions. An index outside the bounds is always reported as an error by checked access, never a wrong element.",
  "all dimensions (including empty and length one), all index values of all integer types, all combinations of index kinds for up to 3 dimensions, on vectors and on views",
  "tests check a handful of literal indices; the claim ranges over all shapes, index types, signs and index-kind combinations",
  CORE + ["include/vif/core/range.hpp", "include/vif/core/bits/iterator.hpp", "include/vif/core/bits/helpers.hpp"],
  [("to_idx, access helpers, range_impl, strided iteration", "include/vif/core/bits/access.hpp, include/vif/core/range.hpp")],
  tech="property-based differential testing against explicit index arithmetic")
P("V03", "Views write through exactly, and assignments never alias",
  "Writing through a view changes exactly the selected elements of the viewed vector and nothing else. Any (compound) assignment between vectors, views and elements gives the result obtained if the right-hand side had been copied first, however the two sides overlap; a size mismatch is an error.",
  "every pair of overlapping or disjoint selections of the same vector (index lists, ranges, 2D blocks, views of views, const views), every assignment operator",
  "tests use non-overlapping or trivially overlapping selections; aliasing depends on the particular pair of index sets",
  CORE, [("view assignment, view_same, compound assignment operators", "include/vif/core/vec.hpp")],
  over=("inputs", "programs"), tech="property-based testing against a copy-first reference model")
P("V04", "Vectorised operators and functions act element by element",
  "An arithmetic, comparison or logical operator or a vectorised function applied to vectors, views, temporaries or scalars on either side yields, at each position, exactly the scalar result for the elements at that position, with the operands' dimensions and the promoted element type. Operands are left unchanged, and operands of different dimensions are an error.",
  "all operand contents, dimensions, element types and operand kinds (vector, view, temporary, scalar) for every provided operator and vectorised function",
  "tests compare a few literal results; in-place reuse of temporaries and view operands depends on the operand kind combination",
  ["include/vif/core/bits/operators.hpp", "include/vif/core/bits/vectorize.hpp", "include/vif/math/base.hpp"],
  [("operator overloads and VIF_VECTORIZE wrappers", "include/vif/core/bits/operators.hpp, include/vif/core/bits/vectorize.hpp")],
  tech="property-based differential testing against scalar evaluation")
P("G01", "Search, match, set and sort functions agree with brute force",
  "Filtering, locating, matching, de-duplicating, set-combining, binary-search and sorting functions return exactly what their brute-force definition returns: right values, right positions, documented order, first match only, stable sort. This holds for empty input, duplicates, values absent from or outside the data, and small as well as large inputs.",
  "all vectors (sizes on both sides of the algorithm switch-over, with and without duplicates, NaN where allowed), all searched values",
  "fixed examples of a few elements never reach the large-input algorithms, duplicates or absent values",
  ["include/vif/utility/bits/generic-find.hpp", "include/vif/utility/bits/generic-rearrange.hpp"],
  [("where/match/unique/set_*/bounds/sort", "include/vif/utility/bits/generic-find.hpp")],
  tech="property-based differential testing against brute-force definitions")
P("G02", "Rearranging functions move every element to its documented place",
  "Reversing, shifting, transposing, replicating, removing from, appending and prepending (along any dimension), flattening and reshaping vectors produce exactly the documented dimensions and element placement, losing and duplicating nothing. Incompatible dimensions, out-of-range or duplicated removal indices are errors, and arguments may be empty or be the modified vector itself.",
  "all shapes up to 3 dimensions, all shift amounts, removal index sets and append dimensions, including self-append and views",
  "tests use one or two literal shapes; boundary shifts, empty operands, row removal and self-append are never sampled",
  ["include/vif/utility/bits/generic-rearrange.hpp", "include/vif/utility/bits/generic-dims.hpp"],
  [("reverse/shift/transpose/replicate/remove/append/prepend", "include/vif/utility/bits/generic-rearrange.hpp")],
  tech="property-based testing against a reference model")
P("G03", "Index arithmetic and generated sequences are exact",
  "Conversions between flat and per-dimension indices are inverse of each other for every position, index lists enumerate each combination exactly once in order, and generated sequences (index, linear, logarithmic, fixed-step) have the requested length, hit both end points and have the documented spacing. Invalid parameters are errors.",
  "all dimensions up to 4, all positions, all end points, lengths and steps",
  "tests check single literal values; round trips must hold for every position and every shape",
  ["include/vif/utility/bits/generic-indices.hpp", "include/vif/utility/bits/generic-sequences.hpp", "include/vif/math/base.hpp"],
  [("mult_ids, flat_id, increment_index_list, indgen, rgen*", "include/vif/utility/bits/generic-indices.hpp, include/vif/math/base.hpp")],
  tech="property-based round-trip and closed-form testing")
STR = "include/vif/utility/bits/string-"
P("S01", "String functions do exactly what a plain reference does",
  "Finding, replacing, splitting, joining, trimming, cutting, wrapping, aligning, changing case, erasing, picking words and rewriting delimited blocks give exactly the documented text for every input string and parameter: no character is lost, invented or moved, splitting and joining are inverse of each other, and wrapped lines respect the width. Vectorised versions give the scalar result at each position, and unsatisfiable requests (missing prefix, missing word, unterminated block) are errors.",
  "all strings, patterns, separators, widths and positions, including empty strings, adjacent and overlapping patterns",
  "tests use one typical string per function; boundaries (empty text, pattern at the ends, last partial piece, single word) are not reached",
  [STR + "base.hpp", STR + "find-replace.hpp", STR + "format.hpp", STR + "split.hpp"], [("string functions", "include/vif/utility/bits/string-*.hpp")],
  tech="property-based differential testing against naive reference implementations")
P("S02", "Text conversion round-trips and refuses malformed values",
  "Converting a value to text gives the standard formatting (default, precision, scientific, fixed, without leaking into following values), and converting text back recovers exactly the value, including NaN and infinities, for scalars and element by element for vectors. Text that is not entirely a value of the requested type, or does not fit in it, is refused.",
  "all values of the integer types, floating point values over the whole exponent range, vectors of any shape, malformed and out-of-range text",
  "tests convert a few literals; round trips must hold for every value and every malformed suffix must be refused",
  ["include/vif/core/string_conversion.hpp", "include/vif/core/bits/operators.hpp"], [("to_string, from_string, format::*", "include/vif/core/string_conversion.hpp")],
  tech="property-based round-trip testing and comparison with printf")
P("S03", "Regular expression functions report every match exactly once",
  "Matching, extraction and replacement agree on the successive leftmost-longest matches of a POSIX extended expression: each match is reported once and in order with its groups (empty text for a group that did not take part), all unmatched text is kept, and the call always terminates. Invalid expressions are errors.",
  "all strings and generated expressions with groups, optional groups, alternation, classes, escapes, anchors and quantifiers",
  "tests use one pattern per function; the number and nesting of groups and the position of matches vary freely",
  [STR + "regex.hpp"], [("regex_match, regex_extract, regex_replace", STR + "regex.hpp")],
  tech="grammar-generated expressions, differential oracle iterating with the C library")
P("S04", "The hash is the SHA-1 of the argument list",
  "The hash of a list of arguments is the 40-digit lower case SHA-1 digest, reproducible from call to call, computed correctly for data of any length. Argument lists that differ in the type, value, number or order of arguments, in any character of a string or any element of a vector, give different hashes.",
  "all byte strings (all lengths around the 64-byte block boundaries), argument lists, vectors",
  "tests do not cover it; padding errors appear only at particular lengths modulo 64",
  [STR + "hash.hpp"], [("sha1::calc, hash", STR + "hash.hpp")],
  tech="differential testing against an independent SHA-1, metamorphic testing of argument lists")
P("S05", "Durations, progress, messages, prompts and environment are reported exactly",
  "Durations are written with the documented units and lose less than the unit written; a progress bar counts every iteration once up to the last, ends with one line break and never fails for any number of iterations; messages carry their prefix and arguments verbatim. Prompting repeats until the answer can be read, environment variables give their value or the default, and the written form of a command line can be split back into the same arguments when some contain spaces.",
  "all durations, iteration counts and tick lengths, message contents, answers, environment values and argument lists with spaces",
  "tests do not cover these functions; errors appear for particular iteration counts, durations at unit boundaries or arguments needing quotes",
  ["include/vif/utility/time.hpp", "include/vif/utility/os.hpp", "include/vif/core/print.hpp", "include/vif/utility/argv.hpp"],
  [("time_str, seconds_str, progress_tick, print_progress", "include/vif/utility/time.hpp"), ("system_var, spawn", "include/vif/utility/os.hpp"), ("print, error, warning, note, prompt", "include/vif/core/print.hpp")],
  tech="property-based testing against an independent formatter and captured output")
P("A01", "Command line arguments reach exactly the variables they name",
  "Reading a program's arguments gives each declared variable the value spelled by the argument of the same name (with or without dashes, quotes or spaces; lists in brackets; no value meaning 1) and leaves every other variable, including one whose argument is malformed, unchanged. Argument order, similar names, unknown arguments and reading in several passes make no difference, unknown and malformed arguments are each reported, and arguments that are written out can be read back.",
  "all argument lists: orders, names that are prefixes or parts of one another, well formed and malformed values, list lengths, reading styles",
  "tests do not cover argument parsing beyond one example; errors appear only for particular name and value combinations",
  ["include/vif/utility/argv.hpp"], [("program_arguments, read_args, arg_list, name", "include/vif/utility/argv.hpp")],
  tech="property-based testing against a model of the variables")
P("F01", "Path functions decompose and rebuild file names consistently",
  "Directory, base name, extension, extension removal, extension split and path joining follow their documented definition for every path, including the root, trailing and repeated slashes, hidden files and dots in directory names, and the pieces put together give the original path back. Vectorised versions give the scalar result at each position.",
  "all path strings made of slashes, dots and names",
  "tests use a handful of typical paths; dots in directories, trailing and repeated slashes are not sampled",
  ["include/vif/io/filesystem.hpp"], [("get_basename, get_directory, split_extension, ...", "include/vif/io/filesystem.hpp")],
  tech="property-based testing against an independent path decomposition, round-trip")
P("F02", "File operations change and report the file tree exactly",
  "Creating directories, copying and removing files, testing existence and age and listing directories act on and report exactly the files concerned: after any history of operations the tree is the one the operations describe, listings contain each matching entry exactly once, and a failed or impossible operation is reported and destroys nothing.",
  "all histories of file operations on a scratch tree with nested directories, hidden files, existing targets and missing sources, files of any size and content",
  "tests look at one static directory; histories, overwrites, self-copies and failures are not sampled",
  ["include/vif/io/filesystem.hpp"], [("mkdir, copy, remove, exists, is_older, list_*, explorer", "include/vif/io/filesystem.hpp")],
  over=("inputs", "histories"), tech="stateful property-based testing against a model of the tree")
P("T01", "ASCII tables are written and read back exactly",
  "Writing columns to a text table gives one line per row with every value of every column in its place, separated and padded as the chosen format says, and reading it back with the same format gives the same values. Reading skips exactly the comment, header and skipped lines asked for, ignores only the columns asked to be ignored, and reports any malformed value, missing column or mismatched column size as an error.",
  "all column types and numbers of columns (scalars, 2D column groups, tuples, placeholders), formats, delimiters, paddings, headers, comments and blank lines; malformed lines",
  "tests read one fixed file; delimiters, empty cells, skip counts and malformed lines vary freely",
  ["include/vif/io/ascii.hpp"], [("ascii::read_table, ascii::write_table, find_skip", "include/vif/io/ascii.hpp")],
  tech="property-based round-trip and comparison with an independent renderer/parser")
FB = ["include/vif/io/fits/base.hpp", "include/vif/io/fits/image.hpp", "include/vif/io/fits.hpp"]
P("I01", "FITS images read back exactly what was written",
  "An image of any shape and pixel type written to a FITS file is read back with the same dimensions and the same pixels, into any type that can hold them, whole, as a sub-section or pixel by pixel, in the HDU it was written to. Updating an image or part of it changes exactly the pixels concerned and no other HDU, and mismatched types, dimensions, positions and missing files are errors.",
  "all shapes up to 4 dimensions, all pixel types (infinities and denormals excepted, see the known finding), all sub-sections, histories of updates on files of several HDUs",
  "tests write and read one image; section boundaries, type pairs and multi-HDU files are not sampled",
  FB, [("fits::read/write/update, output_image, input_image, read_subset, read_pixel", "include/vif/io/fits/image.hpp")],
  over=("inputs", "histories"), tech="property-based round-trip testing against a model of the file")
P("I02", "FITS tables give back the columns that were written",
  "After any history of creating, writing, updating, appending rows, removing and re-reading columns of a column-oriented or row-oriented FITS table, each column reads back with exactly the type class, dimensions and values last written to it, whole or element by element, by name whatever the case, and the column information describes it. Columns of mismatched type, size or missing name are errors that change neither the table nor the destination.",
  "all column types (numbers, booleans, strings of any length, empty columns), 1 to 3 dimensions, both table formats, histories of column operations",
  "tests use one fixed table; variable string length, empty columns, type pairs and update histories are not sampled",
  ["include/vif/io/fits/table.hpp", "include/vif/io/fits/base.hpp"], [("fits::table, read_table, write_table, update_table, read_column_info", "include/vif/io/fits/table.hpp")],
  over=("inputs", "histories"), tech="stateful property-based testing against a model of the table")
P("I03", "A FITS file holds exactly what its history of operations says",
  "After any history of opening, moving between, adding, writing, resizing and removing HDUs and writing, changing, appending and removing keywords, the file (as seen through the same object, a new one, or the header text) contains exactly the HDUs, in order, with the data and keywords the history describes. A failed operation is reported, changes nothing, leaves output variables untouched and the object usable.",
  "all histories of HDU and keyword operations on images, including failing ones, on read-only, write and read-write objects",
  "tests write one keyword; the order of operations on several HDUs is not sampled",
  ["include/vif/io/fits/base.hpp", "include/vif/io/fits/image.hpp"], [("file_base, reach_hdu, remove_hdu, read_keyword, write_keyword", "include/vif/io/fits/base.hpp")],
  over=("histories",), tech="stateful property-based testing against a model of the file")
P("I04", "FITS header text edits touch only the keyword concerned",
  "Setting a keyword in a header text replaces or adds exactly that entry (before END, keeping the comment when none is given) in 80-character cards and leaves every other entry unchanged; reading it gives back the value, and an entry that is absent, too long or misnamed is refused without any change. Parsing a header gives every entry's name, value and comment, serialising gives the entries back, and a header carried to another file brings all its non-structural keywords.",
  "all headers: numbers, strings containing slashes, quotes, equal signs or END, long strings, HIERARCH, HISTORY, comments, names that are prefixes of one another",
  "tests use one simple header; special characters in values are not sampled",
  ["include/vif/io/fits/base.hpp"], [("getkey, setkey, parse_header, serialize_header, write_header", "include/vif/io/fits/base.hpp")],
  over=("inputs", "histories"), tech="property-based testing against a model of the header")
RED = "include/vif/math/reduce.hpp"
P("M01", "Reductions equal their definition, also along a dimension",
  "Totals, counts, means (weighted, optimal), medians, percentiles (weighted or not), minima and maxima with their positions, rms, standard and median absolute deviations and sigma clipping equal their documented definition for every vector or view, not-a-number values being ignored by the ordering ones, and leave their argument unchanged. The partial versions, reduce() and run_dim() apply them to each slice along the requested dimension, exactly once and at the right place; empty input where no value exists and mismatched dimensions are errors.",
  "all vectors and views of numbers and booleans up to 4 dimensions, with NaN, duplicates, large integers; all reduced dimensions, all percentiles in [0,1]",
  "tests use a few literal vectors; NaN, extreme percentiles, views and dimension/slice combinations are not sampled",
  [RED], [("total, mean, median, percentile, min/max, partial_*, reduce, run_dim", RED)],
  tech="property-based differential testing against the definitions")
P("M02", "Histograms count each value once, in the bin that contains it",
  "A one or two dimensional, plain, weighted or index-collecting histogram gives for each of a set of disjoint bins (lower bound included, upper bound excluded, in any order, with gaps) exactly the number, weight or set of the values inside it, and bin membership tests agree with it. Bins built from bounds, edges or centers are contiguous and cover exactly the requested range, and cumulative sums in both directions are the partial sums.",
  "all data (including NaN, infinities and values on bin edges), weights, views, and sets of disjoint bins",
  "tests use one random data set; values exactly on edges, unsorted bins, gaps and empty data are not sampled",
  ["include/vif/math/histogram.hpp"], [("histogram, histogram2d, in_bin, make_bins*, cumul", "include/vif/math/histogram.hpp")],
  tech="property-based differential testing against brute-force counting")
P("M03", "Integrals of tables, bins and functions are exact where claimed",
  "The integral of a table is that of the piecewise linear function through its points, and that of binned data the sum of the bar areas, over the whole range or between any two points inside it, whether on table points or not, with or without a position hint; the cumulative integral gives it up to each point. Ranges not covered by the table and mismatched sizes are errors, and function integration reaches the requested accuracy on smooth positive functions.",
  "all sorted grids, values and integration bounds (on grid points, in the same cell, at the ends), successive hinted intervals",
  "tests integrate one or two functions over the full range; partial cells, both bounds in one cell and end points are not sampled",
  [RED], [("integrate, integrate_hinted, cumul, integrate_func, integrate_gauss", RED)],
  tech="property-based differential testing against closed forms, additivity relation")
P("M04", "Interpolation passes through the data and follows its definition",
  "Linear, bilinear, cubic spline and bicubic interpolation, and rebinning of maps, reproduce the data at the data points and equal their mathematical definition (natural spline, linear extrapolation) at every other position, for regular and irregular grids, scalars and vectors of positions, in any order; interpolated errors follow the same weights. The strict versions give the default value exactly outside of the map, and too few points or mismatched sizes are errors.",
  "all sorted grids of at least two points, data, positions inside, on and outside of the grid",
  "tests interpolate one table at a few points; irregular grids, grid points, borders and extrapolation are not sampled",
  ["include/vif/math/interpolate.hpp"], [("interpolate, interpolate_3spline, bilinear(_strict), bicubic_strict, rebin", "include/vif/math/interpolate.hpp")],
  tech="property-based differential testing against independent implementations")
MAT = ["include/vif/math/bits/matrix-functions.hpp", "include/vif/math/bits/matrix-types.hpp", "include/vif/math/matrix.hpp"]
P("M05", "Matrix operations and decompositions satisfy their defining equations",
  "Products, sums, transposition, diagonals and elementary transforms of matrices and wrapped vectors equal their definition; for every well conditioned matrix the inverse, the solution of a linear system, the determinant and the LU (with or without pivoting), Cholesky, eigen and singular value decompositions satisfy their defining equations, in place or not, and do not alter their arguments. Singular, indefinite, non square or mismatched input is reported as a failure or an error, after which the same object can be used again.",
  "all matrices up to 12x12 with condition number below 1e4 (general) or 1e5 (symmetric), singular and indefinite ones, all vectors",
  "tests use one 2x2 or symmetric matrix; non symmetric, pivoted, singular and reused decompositions are not sampled",
  MAT, [("product, invert, solve, determinant, decompose_lu, decompose_cholesky, decompose_svd, eigen_symmetric", MAT[0])],
  tech="property-based testing: defining equations and differential against a long double elimination")
P("M06", "The built-in linear algebra (no LAPACK) gives the same answers",
  "When the library is compiled without LAPACK, products, inverses, solutions of linear systems, determinants and LU and Cholesky decompositions of well conditioned matrices satisfy the same defining equations, and singular, indefinite, non square or mismatched input is reported the same way.",
  "all matrices up to 12x12 with condition number below 1e4 (general) or 1e5 (symmetric), singular and indefinite ones, all vectors",
  "the test suite is only built with LAPACK, so none of this code is run by it",
  MAT, [("invert, solve, decompose_lu, decompose_cholesky without LAPACK", MAT[0])],
  tech="property-based testing: defining equations and differential against a long double elimination")
P("M07", "Linear fits give the least squares solution, its errors and its chi2",
  "A linear fit (model by model or packed, for data of any dimensions) gives the parameters that minimise chi2, their covariance and errors, and chi2 itself; a batch fitter gives the same for any sequence of data sets and model updates. A fit without a unique solution is reported as failed, also in a batch that recovers once the model is replaced; a non negative fit gives non negative finite parameters which never fit worse than its starting point and are optimal for independent models, and mismatched dimensions are errors.",
  "all data, positive uncertainties, models (up to 4) with condition number below 1e6, and histories of updates of a batch fitter",
  "tests fit one straight line; weights, multi-dimensional data, repeated updates and degenerate models are not sampled",
  ["include/vif/math/linfit.hpp"], [("linfit, linfit_pack, linfit_batch, linfit_nn", "include/vif/math/linfit.hpp")],
  over=("inputs", "histories"), tech="property-based differential testing against long double normal equations")
P("M08", "Non linear fits and minimisation reach the minimum within the limits",
  "mpfit() and mpfitfun() give parameters whose chi2 is the reported one and never larger than at the start, keep frozen parameters untouched, and never evaluate or return parameters outside of their limits; for linear models (unconstrained, or with one independent limited parameter) they reach the optimum and give its errors and covariance, and they recover the parameters of exact non linear data from a close start. minimize_bfgs() finds the minimum of convex quadratic forms and reports its value; mismatched sizes are errors.",
  "all linear models up to 4 parameters with condition number below 1e4, weights, starts, frozen parameters, limits and derivative modes; three families of non linear models; all positive definite quadratic forms up to dimension 4",
  "tests fit one straight line and one parabola without limits, frozen parameters or derivative options",
  ["include/vif/math/mpfit.hpp", "include/vif/math/optimize.hpp"], [("mpfit, mpfitfun", "include/vif/math/mpfit.hpp"), ("minimize_bfgs", "include/vif/math/optimize.hpp")],
  tech="property-based differential testing against exact least squares with enumerated active limits")
P("M09", "Fourier transforms equal the discrete transform and invert each other",
  "The real and complex two dimensional transforms equal the discrete Fourier transform of their argument (in FFTW's half-complex layout for the real one), leave it unchanged, and the inverse transform of the transform is the data times its number of elements, so that the product of transforms gives the circular convolution; they can be called from several threads at once. The one dimensional convolution equals the discretised integral of its two interpolated curves.",
  "all real and complex maps up to 7x7 (odd and even sizes), concurrent calls, all sorted grids for the one dimensional convolution",
  "tests transform one map; odd sizes, single rows or columns and concurrent calls are not sampled",
  ["include/vif/math/fourier.hpp", "include/vif/math/complex.hpp", "include/vif/math/transform.hpp"], [("fft, ifft, fft_c2c, ifft_c2c", "include/vif/math/fourier.hpp"), ("convolve", "include/vif/math/transform.hpp")],
  over=("inputs", "schedules"), tech="property-based differential testing against a direct transform, round trip")
P("M10", "Convex hulls contain exactly the convex combinations of their points",
  "The hull of a set of points is closed, counter-clockwise, strictly convex, made of points of the set, and contains all of them. For hulls built this way or from given vertices (in either order, from any start, some of them aligned, or moved afterwards), a point is reported inside exactly when it is, border included, and its signed distance is that to the closest edge; open hulls, too few vertices and mismatched sizes are errors.",
  "all sets of up to 14 points with integer coordinates (duplicates, aligned points), all query points including vertices and borders, double and single precision",
  "tests use one fixed set of points; aligned, duplicated and clockwise vertices are not sampled",
  ["include/vif/math/convex_hull.hpp"], [("build_convex_hull, in_convex_hull, convex_hull_distance", "include/vif/math/convex_hull.hpp")],
  tech="property-based testing against exact integer geometry")
P("M11", "Random numbers follow the requested distribution and range",
  "Uniform, integer, tabulated, discrete and binary random numbers always lie in the requested range, never take a value of zero probability, and occur with the requested frequencies, one by one or in vectors of any dimensions; the same seed gives the same numbers. Shuffling gives a permutation of the values, leaves its argument unchanged unless done in place, and favours no order.",
  "all seeds, integer ranges (negative, single valued), piecewise linear distributions and weights with zeros, probabilities from 0 to 1",
  "tests only look at a few numbers from one seed; ranges with negative bounds and frequencies are not sampled",
  ["include/vif/math/random.hpp"], [("randomu, randomn, randomi, random_pdf, random_coin, shuffle", "include/vif/math/random.hpp")],
  tech="property-based testing: range invariants and frequency test (8 sigma)")
TH = "include/vif/utility/bits/"
P("P01", "parallel_for runs the function exactly once per index and waits for it",
  "For every number of threads (none included), chunk size and index range, parallel_for::execute() calls the function exactly once for each index of the range and for no other one, and returns only when all the calls have ended, with or without a progress bar, as many times as the same object is used.",
  "all ranges (empty, not starting at zero, smaller than the number of threads), thread counts 0-8, chunk sizes, and schedules perturbed by random delays",
  "the test suite does not use it; range and chunk combinations and thread interleavings cannot be enumerated by tests",
  [TH + "thread-parallel-for.hpp"], [("parallel_for", TH + "thread-parallel-for.hpp")],
  over=("inputs", "schedules"), tech="property-based testing with perturbed schedules, invariant: one call per index")
P("P02", "Queues, workers and worker pools deliver every item once, in order",
  "A single-producer single-consumer queue gives back the elements in the order they were pushed, each once, whatever the interleaving of the two threads, reports its size and emptiness and leaks nothing. A pool of workers processes each item once, on the worker it was given to (round robin by default), in order and with that worker's own workspace, everything being done after consume_all() and join(); a worker runs its jobs in order, all of them being done after wait(), and can be reused.",
  "all histories of push, pop and clear; all numbers of workers and items, with and without workspace; schedules perturbed by random delays",
  "the test suite does not use them; interleavings cannot be enumerated by tests",
  [TH + "thread-queue.hpp", TH + "thread-worker.hpp", TH + "thread-worker-pool.hpp", TH + "thread-thread.hpp"], [("lock_free_queue", TH + "thread-queue.hpp"), ("worker_pool", TH + "thread-worker-pool.hpp"), ("worker", TH + "thread-worker.hpp")],
  over=("histories", "schedules"), tech="stateful property-based testing against a model, with perturbed schedules")
AST = "include/vif/astro/astro.hpp"
IMG = "include/vif/astro/image.hpp"
P("X01", "Sky distances, rotations and offsets follow spherical geometry",
  "The angular distance of any two positions is that of the great circle between them, one by one or in vectors, and the comparison of a distance with a radius agrees with it. Normalised coordinates point to the same place with 0<=RA<360 and |Dec|<=90; moving a position by an offset, and rotating the sky about a vernal point and angle, give the position of the matching rotation of the sphere.",
  "all positions (poles, RA wrap, identical, close and opposite points), offsets and rotations",
  "tests use a couple of ordinary positions; poles, wraps and degenerate rotations are not sampled",
  [AST], [("angdist, angdistr, angdist_less, normalize_coordinates, move_ra_dec, angrot_vernal, vernal_angle", AST)],
  tech="property-based differential testing against long double vector geometry")
P("X02", "Sexagesimal coordinates convert both ways and bad ones are refused",
  "sex2deg() gives the value of every well formed pair of sexagesimal coordinates (signs included, also -00:..), and reports malformed ones as a failure with NaN coordinates, one by one or in vectors. deg2sex() writes a well formed pair (minutes and seconds below 60) whose value is the given one within the precision of its last digit.",
  "all signs, degrees, minutes, seconds with any number of decimals, malformed variants, and all coordinates including those that round up to a full minute or degree",
  "tests convert a handful of pairs; carries, negative zero and malformed text are not sampled",
  [AST], [("sex2deg, deg2sex", AST)],
  tech="property-based testing: differential parser and round trip")
P("X03", "Cosmological distances and flux conversions equal their definition",
  "Luminosity distance, lookback time, volume and proper size equal the integrals that define them for every redshift and known cosmology, and a vector of redshifts (of any size, order and content) gives the same values as its elements. Conversions between magnitudes, microjanskys, luminosities and solar units equal their definition and undo each other, one by one or in vectors.",
  "all redshifts up to 20 (zero and negative included), all built-in cosmologies, vectors up to several thousand values, all fluxes",
  "tests compare a few redshifts of one cosmology; equal, unsorted or non positive redshifts in vectors are not sampled",
  [AST], [("lumdist, lookback_time, vuniverse, propsize", AST), ("mag2uJy, uJy2mag, lsun2uJy, uJy2lsun, mag2lsun, flam2fnu", AST)],
  tech="property-based differential testing against independent quadrature, round trip")
P("X04", "Spectra seen through filters give the integrals of their definition",
  "The flux of a spectrum through a filter is the integral of their product over the filter (as linear interpolations of both), is NaN when the spectrum does not cover the filter, and equals the spectrum for a constant one; luminosities and luminosity conversions are the integrals that define them. Filters described by names, ranges or files are read as described, and an unknown one is reported as a failure.",
  "all sorted wavelength grids (coincident, nested, disjoint, sharing ends), spectra and responses; all filter data bases and descriptions",
  "tests use one spectrum and filter; grids that share points or barely overlap are not sampled",
  [AST, "include/vif/astro/filters.hpp"], [("sed2flux, sed_luminosity, sed_convert", AST), ("read_filter_db, get_filter, read_filter_map", "include/vif/astro/filters.hpp")],
  tech="property-based differential testing against an independent quadrature")
P("X05", "Image cut, shift, resample and profile functions map each pixel as defined",
  "Cutting, enlarging, shrinking, flipping, shifting and recentering an image moves every pixel to its place and fills the rest with the default value, also when the region lies partly or fully outside; translating, scaling and rotating give the interpolation of the image at the transformed position. Circular masks, radial and Gaussian profiles, generated images and boxcar averages have the value of their definition at each pixel.",
  "all images up to about 12x12 (single rows or columns for exact operations), integer and floating pixels, regions, shifts, angles and factors",
  "tests use one image per function; regions crossing borders, fractional shifts and non square images are not sampled",
  [IMG], [("subregion, enlarge, shrink, flip_x, flip_y, shift, translate, translate_integer, recenter, rotate, scale, circular_mask, radial_profile, generate_img, boxcar", IMG)],
  tech="property-based differential testing against a per pixel definition")
P("X06", "Image convolution equals the direct sum, for every size and method",
  "Convolving an image with a kernel through Fourier transforms, with a prepared kernel or with a convolver reused for several images, gives the direct sum over the kernel centred on each pixel (zero, or cyclic, outside of the image). A transition kernel between two point spread functions, convolved with the first, gives the second up to a factor.",
  "all images and kernels up to about 12x12: odd and even, non square, kernels larger than the image, any number of images per convolver",
  "tests convolve one square image; odd, non square or larger kernels and reuse are not sampled",
  [IMG], [("convolve2d, convolve2d_naive, convolve2d_prepare_kernel, convolver2d, make_transition_kernel", IMG)],
  tech="property-based differential testing against the direct sum")
P("X07", "Segmentation finds the connected regions and describes them truly",
  "segment() gives one identifier per connected region of non zero pixels and the true area, center and first pixel of each, and foreach_segment() visits each pixel of each asked segment once, with the right identifier; inflating a mask adds exactly the pixels within the distance. segment_deblend() assigns each pixel above the threshold to one connected segment with true barycenter, flux, area and origin, and segment_distance() grows segments without altering them, from a closest one.",
  "all maps up to about 12x12 with touching, nested, diagonal and border regions, thresholds and distances",
  "tests use one small map; diagonal contacts, borders and ties are not sampled",
  [IMG], [("segment, foreach_segment, segment_deblend, segment_distance, mask_inflate", IMG)],
  tech="property-based testing against flood fill and brute force distances, invariants")
QX = "include/vif/astro/qxmatch.hpp"
P("X08", "Cross matching finds the true nearest neighbours both ways",
  "For every source of the first catalog, qxmatch() gives the asked number of nearest sources of the second one, each once, in order of distance and with their true distance (none when there are not enough), and the nearest source of the first catalog for each source of the second one; brute force and bucket search, any number of threads, sky and linear coordinates and self matching (without matching a source to itself) give the same answer. Keeping the clean matches gives exactly the pairs that are best both ways; invalid coordinates are errors.",
  "all catalogs up to 400 sources in fields up to 0.5 degrees and |Dec|<=60 (no RA wrap), clustered, aligned, duplicated or disjoint, up to 6 neighbours, 1-5 threads",
  "the test suite does not run it; the answer of the bucket search depends on where each source lies in its bucket",
  [QX], [("qxmatch, xmatch_clean_best, qdist", QX)],
  over=("inputs", "schedules"), tech="property-based differential testing against brute force in long double")
WCS = "include/vif/astro/wcs.hpp"
P("X09", "Pixel and sky coordinates convert both ways as the FITS header says",
  "For every header with a gnomonic projection (any scale, rotation, reference, order of the axes and notation), xy2ad() gives the position of each pixel and ad2xy() its inverse, one by one or in vectors; spectral axes give the wavelength or frequency of each pixel in the asked unit, and back. Pixel size and rotation are those of the header, headers made from simple parameters describe them, filtering keeps each coordinate keyword once, and invalid coordinates, units, axes or parameters are refused.",
  "all references (|Dec|<=85), scales, matrices (CDELT, PC, CD), axis orders, third axes in wavelength or frequency and their units",
  "the test suite converts nothing of this kind; axis orders, rotations and units are combinations that cannot be enumerated",
  [WCS], [("wcs, ad2xy, xy2ad, x2w, w2x, build_axis, get_pixel_size, get_image_rotation, make_wcs_header, filter_wcs", WCS)],
  tech="property-based differential testing against a long double gnomonic projection, round trip")
P("X10", "Regridding an image gives the interpolated or area weighted pixels",
  "regrid_interpolate() gives, for each pixel of the new grid, the nearest or interpolated value of the image at its position (times its area when flux is conserved) and NaN outside of the image. regrid_drizzle() gives the average of the overlapping pixels weighted by their overlap area, per unit area of the new grid, and these weights, for images and cubes and any pixel fraction; the linearised versions agree with the exact ones on small fields.",
  "all pairs of grids up to 9x9 pixels: integer and fractional shifts, rotations, scale factors, non square pixels, partial or no overlap",
  "the test suite runs neither; overlaps of arbitrary grids cannot be enumerated",
  [IMG], [("regrid_interpolate, regrid_drizzle", IMG)],
  tech="property-based differential testing against exact projection and polygon clipping in long double")
QS = "include/vif/astro/qstack.hpp"
P("X11", "Cutouts and stacks contain the right pixels of the right images",
  "A cutout around a sky position contains exactly the pixels around it, the default value outside of the image, the pixels of the other sections where the first one has none, and a header that places the source; one outside of all images is reported and filled with the default value. qstack() gives the cutouts of the sources covered by the image (free of bad pixels, or with NaN in their place when asked), their weights, indices, offsets and sections, and means, medians and bootstraps combine these and nothing else.",
  "all images up to 12x12 with bad pixels, one or several sections, positions inside, across the borders and outside, cutout sizes, distortion maps, cubes",
  "the test suite runs none of it; positions near the borders of several overlapping images cannot be enumerated",
  [IMG, QS], [("cutout_extractor", IMG), ("qstack, qstack_mean, qstack_median, qstack_bootstrap", QS)],
  tech="property-based differential testing against a pixel by pixel model and an independent projection")
P("X12", "Random positions, clustering, areas, PSF fluxes and source picks are right",
  "Random positions are exactly as many as asked, inside the requested box, circle or region and uniform over it (power law ones cluster within their radii), and an impossible region is reported. The angular correlation is the Landy-Szalay estimate of the pair counts, field areas are those of the hull or of the occupied cells, and a PSF fit gives the flux and error of the weighted linear fit in the part of the image it covers, which the subtraction then removes. Band lookups find the bands asked for, and picked sources are the finite cutouts of the sources well inside the image, with their indices.",
  "all seeds, regions, catalogs of up to 60 sources, square and non-square PSFs across image borders",
  "the test suite runs none of it; degenerate hulls, borders and non-square PSFs cannot be enumerated",
  [AST], [("randpos_*, angcorrel, field_area*, psffit, srcsub, pick_sources, get_band", AST)],
  tech="property-based testing against brute-force pair counts, planar areas, least squares and 8-sigma frequency tests")
P("X13", "DS9 region files select the pixels they describe",
  "Reading a DS9 region file gives every circle and box it holds, in order, with its position, sizes, angle, color and text (sexagesimal or decimal, sky or physical coordinates), and says which lines it cannot use. Converting a region between sky and pixels and back gives the same region, regions that are written are read back unchanged, and masking an image with a region file sets exactly the pixels whose centers lie inside one of the regions, the others keeping their value.",
  "all region files of up to 8 regions with comments, options and malformed lines, all astrometries of small images",
  "the test suite has no region file; angles, orientations and coordinate systems combine",
  ["include/vif/astro/ds9.hpp"], [("read_regions, write_regions, physical_to_wcs, wcs_to_physical, mask_regions", "include/vif/astro/ds9.hpp")],
  tech="property-based testing against an independent reader, long double astrometry and a pixel by pixel mask")
P("X14", "Template fits find the best template and its amplitude",
  "The observed fluxes of a template library are those of each template seen through each filter, redshifted and dimmed (averaged over the sources when several redshifts are given). A template fit gives each template its least squares amplitude, chi-squared and fluxes, with upper limits weighted by their error function, and picks the template with the lowest chi-squared; simulations scatter the amplitudes by their uncertainty. A combined fit looks at every combination of templates allowed by the constraint, and returns the best one with its amplitudes, fluxes and chi-squared, or says that there is none.",
  "all libraries of up to 5 templates (3 libraries of 3), filters, fluxes, errors, limits, constraints, including null templates",
  "the test suite has no template fit; the constraints, limits and degenerate templates cannot be enumerated",
  ["include/vif/astro/template_fit.hpp"], [("template_observed, limweight, template_fit, multi_template_fit", "include/vif/astro/template_fit.hpp")],
  tech="property-based testing against long double least squares over every combination and 8-sigma tests of the simulations")
P("Y01", "fitstool changes what it is asked to change, and nothing else",
  "Each fitstool operation leaves a FITS file with exactly the change that was asked for: removing columns, transposing them, converting a row-oriented table to a column-oriented one, copying the astrometry of another file, removing or editing keywords (with the type and value that was typed), dropping degenerate axes, moving the odd columns to another table and extracting an extension. Every other extension, column, pixel and keyword stays bit for bit the same, and listing the header or a keyword prints what the file holds.",
  "all FITS files with up to 3 images and tables of any column type and shape, all operations and options",
  "the test suite does not run the programs; what must stay the same is the whole rest of the file",
  ["tools/fitstool/fitstool.cpp"], [("remove, transpose, r2c, cpwcs, hdr, readkwd, rmkwd, editkwd, make2d, meta, extract", "tools/fitstool/fitstool.cpp")],
  tech="property-based testing of the tool on generated files against snapshots read with CFITSIO")
P("Y02", "The imaging programs compute the images they document",
  "imgtool multiplies an image exactly, convolves it with a kernel (normalised if asked) and rotates it counter clockwise by interpolation, pixels from outside being undefined; qconvol convolves an image with a Gaussian of full width at half maximum twice the radius, in pixels or arcseconds, or with a kernel centered on its peak; qmask gives each pixel the part of it that is covered by the circles of a region file, in sky or pixel coordinates; qregrid makes a grid with the asked pixel scale, size and center, or that of a template, and puts the image on it; radec2pix prints the pixel positions of sky coordinates. The other keywords of the image are kept.",
  "all small images, kernels, angles, radii, regions, astrometries and options",
  "the test suite does not run the programs; orientation, centering and unit errors only show for images that are not square or symmetric",
  ["tools/imgtool/imgtool.cpp", "tools/qconvol/qconvol.cpp", "tools/qmask/qmask.cpp", "tools/qregrid/qregrid.cpp", "tools/radec2pix/radec2pix.cpp"], [("convolve, multiply, rotate", "tools/imgtool/imgtool.cpp"), ("vif_main", "tools/qconvol/qconvol.cpp"), ("vif_main", "tools/qmask/qmask.cpp"), ("vif_main", "tools/qregrid/qregrid.cpp"), ("vif_main", "tools/radec2pix/radec2pix.cpp")],
  tech="property-based testing of the tools on generated images against direct sums and long double astrometry")
P("Y03", "The catalog programs export, match and convert what the catalogs hold",
  "fits2ascii writes the selected, renamed or split columns of a FITS table, for all rows or the listed ones, in a text table whose header gives the name and type of each column and whose values are those of the table to the printed precision; qxmatch2 saves for each source its nth nearest neighbors and their distances, in another catalog or its own; findsrc lists the sources nearest to a position or another source, by increasing distance, with the asked columns; sex2deg and deg2sex convert coordinates to the printed precision, and refuse what is not a coordinate.",
  "all tables of up to 6 columns of any type and shape with all options, catalogs of up to 18 sources, all coordinates",
  "the test suite does not run the programs; options, types and shapes combine",
  ["tools/fits2ascii/fits2ascii.cpp", "tools/qxmatch2/qxmatch2.cpp", "tools/findsrc/findsrc.cpp", "tools/sex2deg/sex2deg.cpp", "tools/deg2sex/deg2sex.cpp"], [("vif_main", "tools/findsrc/findsrc.cpp"), ("vif_main, read_column", "tools/fits2ascii/fits2ascii.cpp"), ("vif_main", "tools/qxmatch2/qxmatch2.cpp"), ("vif_main", "tools/sex2deg/sex2deg.cpp"), ("vif_main", "tools/deg2sex/deg2sex.cpp")],
  tech="property-based testing of the tools on generated tables against the generated values and all pairs of sources")
P("Y04", "Sources are stacked and subtracted where they are",
  "qstack2 takes the cutouts of the selected sources of a catalog (or of cubes of cutouts), centered on each source to the pixel, or to a fraction of a pixel if asked, leaves out the sources without data, and saves their mean, weighted mean, median, cube or bootstrap realisations. Point source models (Gaussian, with a ring, from a file) are centered where asked, and subsrc subtracts from an image, for each selected source of a catalog, the model at its position times its flux; psffit gives the least squares flux of a model at a pixel, its error, the background if asked, and the residual image.",
  "all images up to 16x16, catalogs of up to 10 sources in and around the image, cubes, models and options",
  "the test suite does not run the programs; sources on the edges, offsets and selections combine",
  ["tools/qstack2/qstack2.cpp", "tools/subsrc/subsrc.cpp", "tools/psffit/psffit.cpp", "include/vif/astro/astro.hpp"], [("vif_main", "tools/psffit/psffit.cpp"), ("vif_main", "tools/qstack2/qstack2.cpp"), ("vif_main", "tools/subsrc/subsrc.cpp"), ("make_psf", "include/vif/astro/astro.hpp")],
  tech="property-based testing of the tools on generated images and catalogs against direct sums and long double astrometry")
FT = "include/vif/io/fits/table.hpp"
P("I05", "FITS files are exchanged faithfully with other programs",
  "An image or table written by another program (any pixel or column type, scaling, orientation, extension, binary or ASCII) is read with its exact dimensions, types, values and keywords, and types that do not fit are refused. Conversely, what vif writes is seen by another program with those dimensions, types, values, keywords, columns and rows, and columns that are allocated first hold exactly the elements written to them later.",
  "all pixel and column types, up to 3 axes, several HDUs, row and column oriented tables, ASCII tables, TDIM and scaling keywords",
  "the test suite only reads back what vif itself wrote, mostly one fixed file; a mistake shared by the writer and the reader is invisible to it",
  FB + [FT], [("input_image, output_image, input_table, output_table, read_columns_info", FT)],
  tech="property-based differential testing against direct use of the cfitsio C library")
