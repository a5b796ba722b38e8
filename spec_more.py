ROI = "skbeam/core/roi.py"
MASK = "skbeam/core/mask.py"
prop("C09", "Region-of-interest builders label exactly the requested pixels",
     """For every image shape and every rectangle, ring, segmented ring, bar, box and line specification, a pixel carries
     label k exactly when it lies inside the k-th requested region (inner edge included, outer edge excluded), and 0
     otherwise. Regions that reach or lie outside the image label only pixels inside it, radii tables follow from inner radius,
     widths and spacings, and invalid specifications are refused instead of giving a wrong label image.""",
     ["inputs", "configurations"],
     "all small image shapes, centres, edge lists, segment counts, offsets, rectangles and line end points of the alphabets, inside, on and outside the borders",
     "the tests draw a few shapes well inside one image and compare counts; borders, offsets and overlapping edges are not reached",
     [ROI, "skbeam/core/utils.py"],
     [("edge digitisation", ROI + ": _make_roi, rings, bar"), ("segments", ROI + ": segmented_rings"),
      ("clipping", ROI + ": rectangles, lines"), ("radii", ROI + ": ring_edges")], [],
     ["rectangles", "rings", "segmented_rings", "ring_edges", "bar", "box", "lines"],
     "exhaustive enumeration of specifications and shapes; per-pixel geometric reference predicate",
     "Every specification of the stage tables, every pixel. Pixels within 1e-9 of an angular segment border are exempt.")
prop("C10", "Region statistics use exactly the pixels of each region",
     """For every label image and image series, per-region values (pixel lists, maxima, means over time, kymographs, circular
     averages, label index lists) are computed from exactly the pixels carrying that label, in pixel order and frame order,
     whatever the labels' numbering, gaps, order of request or container type. Results for one region do not depend on others
     and inputs are not modified.""",
     ["inputs", "configurations"],
     "all labellings of small images with up to three labels, all label requests, all containers and dtypes, all threshold/bin settings of the alphabets",
     "tests use one label image numbered 1..n and one stack; gaps, single-pixel regions and subsets are not reached",
     [ROI], [("per-label statistics", ROI + ": mean_intensity, roi_max_counts, roi_pixel_values, kymograph"),
             ("radial binning", ROI + ": circular_average"), ("foreground indices", ROI + ": extract_label_indices")], [],
     ["mean_intensity", "roi_max_counts", "roi_pixel_values", "kymograph", "circular_average", "extract_label_indices"],
     "exhaustive enumeration of labellings and image series; direct per-pixel reference",
     "All 3-label labellings of 2x3 images, all request subsets; averages at 1e-9.")
prop("C11", "Masks exclude exactly the offending pixels and frames",
     """Marking frames as bad replaces exactly those frames by all-NaN frames and passes every other frame through unchanged
     and in order; the running threshold mask excludes exactly the pixels that have reached the threshold so far, the margin
     mask exactly the border of the requested width, and the outlier mask exactly the pixels outside the allowed number of
     standard deviations of their own bin (plus those already masked). Streams are consumed one frame at a time and neither
     frames nor masks given by the caller are modified.""",
     ["inputs", "histories", "schedules"],
     "all subsets of bad frames of streams up to five frames, all short pixel histories over an alphabet, all small shapes and widths, all interleavings of two streams",
     "tests check one bad list, one threshold stack and one outlier image",
     [MASK], [("bad frames", MASK + ": bad_to_nan_gen"), ("running mask", MASK + ": threshold"), ("border", MASK + ": margin"),
              ("outliers", MASK + ": binned_outlier")], [("running mask", "pixels excluded so far", MASK + ": threshold")],
     ["bad_to_nan_gen", "threshold", "margin", "binned_outlier"],
     "exhaustive enumeration of frame histories, masks and shapes; step-wise reference model",
     "All histories of the stage tables; pixels exactly on the outlier limit are exempt.")
DPC = "skbeam/core/dpc.py"
prop("C12", "Phase-contrast reconstruction is exact and resumable at every scan point",
     """For every region, bad-pixel list and image, the reductions used for differential phase contrast are the exact row and
     column sums; every scan point's fit depends only on its own image, and stopping and resuming the scan at any point, in any
     interleaving with another scan, gives the same result as an uninterrupted run. The reconstructed phase equals the documented
     weighted integration of the fitted gradients, whatever the padding, step sizes, scaling and sign options.""",
     ["inputs", "configurations", "histories", "schedules"],
     "all rectangles and bad pixels of small images, all cut points and observation subsets of small scans, all interleavings of two scans, all option combinations of the alphabets",
     "tests run one constant scan and one stored reconstruction; resuming at each point and the option combinations are not reached",
     [DPC], [("projection", DPC + ": image_reduction"), ("fit per point", DPC + ": dpc_fit, _rss_factory"),
             ("lazy scan", DPC + ": lazy_dpc"), ("integration", DPC + ": recon, reconstruct_phase_from_partial_info")],
     [("internal_state", "fitted gradients and amplitudes of the points done so far", DPC + ": lazy_dpc")],
     ["image_reduction", "dpc_fit", "lazy_dpc", "recon", "reconstruct_phase_from_partial_info", "dpc_runner"],
     "enumeration of regions, cut points, interleavings and options on the real generators; direct reference sums and discrete Fourier sums",
     "All sub-rectangles of the shapes of the stage tables, all cut points of scans up to 6 points, all 20 interleavings of two scans; floating point at 1e-9, fits at 1e-3.")
SPECK = "skbeam/core/speckle.py"
prop("C13", "Speckle visibility statistics are those of the summed images",
     """For every image series, region and number of integration times, the reported probability density of counts at each
     integration time is the normalised histogram of the sums of consecutive, non-overlapping groups of that many images, averaged
     over the groups, and image sets contribute with equal weight to the averages and standard deviations. Bad frames contribute nothing, the bin
     edges and the integration times follow the documented geometric series, and no input is modified.""",
     ["inputs", "configurations", "histories"],
     "all frame sequences over an alphabet, all series lengths up to 19, image-set combinations, labellings and subsets of bad frames",
     "tests compare one stored stack at one level; the higher levels and unequal sets are not reached",
     [SPECK], [("cascade of sums", SPECK + ": xsvs, _process"), ("running averages", SPECK + ": _process, xsvs"),
               ("series", "skbeam/core/utils.py: geometric_series")],
     [("speckle cyclic buffers", "last images of each integration time", SPECK + ": xsvs")],
     ["xsvs", "normalize_bin_edges", "geometric_series"],
     "exhaustive enumeration of frame histories and configurations; reference model of all disjoint sums",
     "All sequences of the stage tables (alphabet 4, lengths up to 19, 8 numbers of times); equality at 1e-9.")
CDI = "skbeam/core/cdi.py"
prop("C14", "Diffraction-imaging projections and iterations follow their definitions",
     """For every array shape, the box and disk supports contain exactly the pixels within the requested radius of the centre; the modulus
     projection reproduces the given amplitudes and keeps the phases, the initial random phase keeps the amplitudes, and the
     support update keeps exactly the pixels above the threshold of the smoothed object. Every iteration of the
     reconstruction equals the difference map built from these projections, errors and callbacks are reported for every iteration, and
     the initial sample of the caller is not modified.""",
     ["inputs", "configurations", "histories"],
     "all small 2-D and 3-D shapes and radii, all option combinations of the reconstruction, all iterations of short runs",
     "tests check a few shapes of one size and that a long run's error gets small",
     [CDI], [("supports", CDI + ": generate_box_support, generate_disk_support"), ("projections", CDI + ": pi_modulus, find_support"),
             ("iteration", CDI + ": cdi_recon")], [("sample object", "current estimate", CDI + ": cdi_recon")],
     ["generate_box_support", "generate_disk_support", "pi_modulus", "find_support", "generate_random_phase_field", "cdi_recon"],
     "exhaustive enumeration of shapes, radii and options; step-wise conformance of every iteration to a reference difference map",
     "Random initial phases are fixed through numpy's seed; the array transform itself is trusted. Runs of up to 6 iterations.")
UT = "skbeam/core/utils.py"
prop("C15", "Dotted-path dictionaries behave as nested mappings after every history",
     """After every sequence of insertions, deletions and lookups by dotted path, the metadata and parameter dictionaries contain
     exactly the values a nested mapping would contain: what was stored under a path is what is read back, iteration and length
     list exactly the stored paths, and removing a path removes only that path. Looking something up or failing to store it never
     changes the contents.""",
     ["histories", "inputs"],
     "all operation sequences up to a depth over a set of overlapping dotted paths, from every reachable state",
     "tests store and read a handful of independent keys; prefixes, deletions and failed operations in sequence are not reached",
     [UT], [("path splitting", UT + ": MD_dict, RCParamDict"), ("error message", UT + ": verbosedict")],
     [("nested storage", "tree of values", UT + ": MD_dict._dict, RCParamDict._dict")],
     ["MD_dict", "RCParamDict", "verbosedict"],
     "explicit-state breadth-first search over the reference model's reachable states, every transition replayed on the real class",
     "States deduplicated on the model; every operation tried from every state reachable within the depth.")
IOD = "skbeam/io/"
prop("C16", "What is written to a data file is what is read back",
     """For every length, scale, grid and element type of the supported formats, reading a written file gives back the written
     positions, intensities and errors within the number of digits of the format, with the same number of points in the same
     order. Two- and three-dimensional files are read with the stored shape, element type, byte order and values.""",
     ["inputs", "configurations"],
     "all lengths around the record sizes of the formats, all modes, scales, shapes, dtypes and byte orders of the alphabets",
     "tests write and read one pattern of one length per mode",
     [IOD + "gsas_file_reader.py", IOD + "save_powder_output.py", IOD + "binary.py", IOD + "avizo_io.py", IOD + "net_cdf_io.py", IOD + "fit2d_io.py"],
     [("record layout", IOD + "save_powder_output.py: gsas_writer"), ("record parsing", IOD + "gsas_file_reader.py"),
      ("header parsing", IOD + "avizo_io.py")], [],
     ["gsas_writer", "gsas_reader", "save_output", "fit2D_save", "read_fit2D_msk", "read_binary", "load_amiramesh", "load_netCDF"],
     "exhaustive enumeration of lengths, modes and layouts; write/read round trip through real files against independent encoders",
     "All lengths up to two records beyond a full record, every mode and dtype; scale factors other than 1 in netCDF files are not claimed.")
prop("C17", "Refused or failed writes are reported and never damage other files",
     """After every sequence of write calls, every file holds exactly what the last successful write to it put there; a call that is refused because of its
     arguments changes no file, and every file that was not the target keeps its contents. When the storage fills up
     in the middle of a write, the call reports an error instead of returning as if the data were saved.""",
     ["histories", "crash_points", "inputs"],
     "all sequences of up to three write operations from an alphabet of accepted and refused calls; every position at which the storage can run full",
     "tests write once into an empty directory; overwriting, refusing and failing at each byte are not exercised",
     [IOD + "save_powder_output.py", IOD + "fit2d_io.py"],
     [("file creation", IOD + "save_powder_output.py: save_output, gsas_writer"), ("argument checks", IOD + "save_powder_output.py: _validate_input, gsas_writer")],
     [("files on disk", "contents of the target directory", IOD)],
     ["save_output", "gsas_writer", "fit2D_save"],
     "exhaustive enumeration of operation sequences and of the fault position (file-size limit at each byte) on the real file system in a scratch directory",
     "All histories of length up to 3 over the operation alphabet, every fault position of each format.")
SPEC = "skbeam/core/spectroscopy.py"
prop("C18", "Spectrum integration covers exactly the requested regions",
     """For every ascending or descending grid and every list of regions, integrating a spectrum gives the sum over the regions of the
     integral over its samples, from the first one at or above the lower end up to the first one at or above the upper end, and malformed regions, grids or lengths are refused. The
     largest-peak search and peak fit return centre, width and height of a Gaussian anywhere in the data, and aligning and
     scaling spectra maps their peaks onto the first one's.""",
     ["inputs", "configurations"],
     "all pairs and lists of bounds between and on grid points of several uneven grids in both directions, all peak positions including both borders",
     "tests integrate a few regions of one histogram and fit one centred peak",
     [SPEC], [("region selection", SPEC + ": integrate_ROI"), ("peak window", SPEC + ": find_largest_peak"), ("alignment", SPEC + ": align_and_scale")], [],
     ["integrate_ROI", "integrate_ROI_spectrum", "find_largest_peak", "align_and_scale", "fit_quad_to_peak"],
     "exhaustive enumeration of bounds and grids; exact rational reference integration",
     "All bound pairs of the grids and all region lists of the stage tables; the integration rule is checked on polynomials it integrates exactly.")
CONST = "skbeam/core/constants/"
prop("C19", "Element, emission-line and powder-standard lookups are exact",
     """For every element, looking it up by atomic number, symbol or name in any capitalisation finds the same element with the
     same tabulated properties, its emission lines, cross sections, yields and binding energies are those of the underlying tables, and unknown
     elements, lines and shells are refused. Searching lines near an energy returns exactly the lines within the tolerance that the incident energy
     excites, and powder standards turn wavelengths into the Bragg angles of their spacings, independent of call order.""",
     ["inputs", "histories"],
     "all elements 1..100, all lines, all shells, all capitalisations of symbols, grids of energies and tolerances around every line",
     "tests look up a handful of elements and one standard",
     [CONST + "basic.py", CONST + "xrf.py", CONST + "xrs.py", CONST + "api.py"],
     [("element table", CONST + "basic.py: BasicElement"), ("line table", CONST + "xrf.py: XrayLibWrap, XrfElement"),
      ("near-line search", CONST + "xrf.py: emission_line_search, line_near"), ("standards", CONST + "xrs.py: PowderStandard")], [],
     ["BasicElement", "XrfElement", "emission_line_search", "PowderStandard", "calibration_standards"],
     "complete enumeration of the finite tables through every access path; oracle is the underlying library and data file",
     "All 100 elements, every line and shell; xraylib and the element data file are trusted.")
XM = "skbeam/core/fitting/xrf_model.py"
prop("C20", "XRF model parameters and spectra follow the requested adjustments",
     """After every sequence of strategy choices and per-line position, width, ratio and area adjustments, the parameter set holds exactly the
     requested bound types and values, touching no other line. The modelled spectrum of every element, scatter peak
     and pile-up pair is the sum of its lines excited at the incident energy with the tabulated energies and branching ratios, and
     assembling several elements adds their spectra whatever the order.""",
     ["inputs", "configurations", "histories"],
     "all elements and lines of the line lists, all sequences of parameter operations up to a depth, all pairs of strategies, permutations of elements",
     "tests fit one synthetic spectrum with one strategy and check that it converges",
     [XM, "skbeam/core/fitting/base/parameter_data.py", "skbeam/core/fitting/models.py"],
     [("parameter controller", XM + ": ParamController"), ("element model", XM + ": ModelSpectrum.setup_element_model"),
      ("strategies", XM + ": set_parameter_bound, register_strategy"), ("line list", XM + ": get_activated_lines")],
     [("parameter dictionary", "values and bound types per line", XM + ": ParamController.params")],
     ["ParamController", "ModelSpectrum", "construct_linear_model", "update_parameter_dict", "get_activated_lines"],
     "explicit enumeration of parameter-operation sequences with a reference dictionary; spectra compared with a directly summed reference",
     "Every element line of the K, L and M lists; spectra at 1e-8 against xraylib numbers and a re-implemented peak shape.")
prop("C21", "XRF fits give the optimal non-negative amounts under every worker schedule",
     """For every spectrum, set of component curves and weights, the linear fit returns the non-negative amplitudes of smallest
     weighted squared residual, with the per-component curves adding up to the fitted spectrum. A map of pixels gives every pixel's own fit in its own
     place, with the same amplitudes, background treatment and quality figure, however many worker processes are used and in whatever order they
     finish, and a failure in one row is reported. Areas and line shares are those of the tabulated cross sections and the fitted amplitudes.""",
     ["inputs", "configurations", "schedules"],
     "all small systems over an alphabet, all element selections of the stage tables, all completion orders of the row jobs and worker counts, every failing row",
     "the tests fit one map on one machine and check a coarse tolerance; worker orders and active constraint sets are not reached",
     [XM], [("non-negative least squares", XM + ": nnls_fit"), ("row fit", XM + ": fit_per_line_nnls"),
            ("worker pool", XM + ": fit_pixel_multiprocess_nnls"), ("linear fit", XM + ": linear_spectrum_fitting"),
            ("areas", XM + ": calculate_area, get_relative_cs_ratio")],
     [("outstanding row jobs", "results collected from the pool so far", XM + ": fit_pixel_multiprocess_nnls")],
     ["nnls_fit", "linear_spectrum_fitting", "fit_per_line_nnls", "fit_pixel_multiprocess_nnls", "calculate_area"],
     "enumeration of all completion orders through a controlled pool and of all active sets by brute force; optimality conditions checked on every fit",
     "All systems of the stage tables, all completion orders of up to 4 rows, 1 to 4 workers, plus runs with the real pool.")
ARI = "skbeam/core/arithmetic.py"
UT = "skbeam/core/utils.py"
prop("C22", "Image arithmetic and reference subtraction are exact for every pixel type",
     """For every pair of images of every pixel type, memory layout and output buffer, also when the output is one of the inputs, the logical
     image operations (nand, nor, a-and-not-b and the standard ones) follow their truth table at each pixel, with non-zero
     counting as true. Subtracting reference images takes from each image the most recent reference
     before or at it, in time order and for every pattern of references, without wrapping unsigned pixels around, drops the references themselves, and
     refuses a series that does not start with a reference.""",
     ["inputs", "configurations", "histories"],
     "all pairs of pixel values of every type, all output aliasings and layouts, all reference patterns of series up to seven frames",
     "tests use one image pair and one pattern of references",
     [ARI, UT], [("logical operations", ARI + ": logical_nand, logical_nor, logical_sub"), ("running reference", UT + ": subtract_reference_images")],
     [("current reference", "last reference frame seen", UT + ": subtract_reference_images")],
     ["logical_nand", "logical_nor", "logical_sub", "logical_and", "logical_or", "logical_not", "logical_xor", "subtract_reference_images"],
     "exhaustive enumeration of truth tables x types x aliasing and of reference histories; per-pixel reference",
     "Complete truth tables for 6 x 6 pixel types; all reference patterns up to 6 (quick) or 7 frames.")
prop("C23", "Coordinate grids, bin edges and unit conversions equal their definitions",
     """For every shape, centre and pixel size the radius and angle maps give each pixel's own distance and direction from the centre, and pixel
     lists give each pixel's own relative position and intensity. Bin edges built from any valid choice of ends, number
     and step start and end where asked, are evenly spaced and never leave the range, and every other choice is refused; centres lie midway between
     edges. Conversions between scattering vector, spacing, angle and radius invert each other and equal their formulas,
     and the multi-tau delays are exactly those of the scheme.""",
     ["inputs", "configurations"],
     "all small shapes with centres inside and outside, all combinations of edge arguments over the alphabets, all conversions over grids of values",
     "tests use square centred grids and round numbers; exact divisions, off-image centres and odd level counts are not reached",
     [UT], [("grids", UT + ": radial_grid, angle_grid"), ("pixel lists", UT + ": img_to_relative_xyi"), ("edges", UT + ": bin_edges, bin_edges_to_centers"),
            ("conversions", UT + ": q_to_d, d_to_q, q_to_twotheta, twotheta_to_q, radius_to_twotheta"), ("delays", UT + ": multi_tau_lags")], [],
     ["radial_grid", "angle_grid", "img_to_relative_xyi", "bin_edges", "bin_edges_to_centers", "q_to_twotheta", "multi_tau_lags"],
     "exhaustive enumeration of the argument alphabets; exact rational references",
     "All argument combinations of the stage tables; floating point at 1e-9. Oblong images in pixel lists are a known finding.")
LS = "skbeam/core/fitting/lineshapes.py"
prop("C24", "Peak shapes and count distributions have their stated value, area and position",
     """For every area, centre and width the peak functions (Gaussian, Lorentzian, Voigt, pseudo-Voigt, step, tail, elastic, Compton) take at each
     point the value of their formula, scale linearly with their area, are centred where stated and integrate to that
     area where they are normalised. The count distributions (negative binomial, Poisson, gamma) equal their formulas, sum
     to one and have the stated mean, also for large counts, and the fitting models built on the shapes evaluate to the same
     values under every parameter prefix.""",
     ["inputs", "configurations"],
     "all parameter combinations of the alphabets evaluated on grids of points including both sides of the peak, all models and prefixes",
     "tests compare a few stored values at one parameter set",
     [LS, "skbeam/core/fitting/models.py", "skbeam/core/fitting/base/parameter_data.py"],
     [("shapes", LS + ": gaussian, lorentzian, voigt, pvoigt, elastic, compton"), ("distributions", LS + ": nbinom_dist, poisson_dist, gamma_dist"),
      ("models", "skbeam/core/fitting/models.py: set_default, ElasticModel, ComptonModel")], [],
     ["gaussian", "lorentzian", "voigt", "pvoigt", "elastic", "compton", "nbinom_dist", "poisson_dist", "gamma_dist"],
     "exhaustive enumeration of parameter alphabets; independently written formulas and quadrature as reference",
     "All combinations of the stage tables; values at 1e-9 relative, areas by quadrature at 1e-6. Two stated areas are known findings.")
BG = "skbeam/core/fitting/background.py"
SM = "skbeam/core/smoothing.py"
prop("C25", "Profile binning, background stripping and smoothing compute the stated filter",
     """Binning a profile over any range and number of bins puts every sample in range into exactly one bin, so that sums,
     counts and statistics are those of the samples themselves whatever their order, and radial binning of an image uses exactly the unmasked pixels of each ring. The
     background estimate equals the documented iterative clipping at every channel, never exceeding the smoothed spectrum. Surface
     smoothing reproduces polynomials up to its order and leaves constants unchanged for every pixel type, and invalid
     windows or orders are refused.""",
     ["inputs", "configurations"],
     "all short sample lists over an alphabet with values on edges and outside, all small images and masks, all spectra and option sets of the stage tables",
     "tests use one random profile, one spectrum and one constant image",
     [UT, "skbeam/core/stats.py", BG, SM],
     [("binning", UT + ": bin_1D, bin_grid; skbeam/core/stats.py: statistics_1D"), ("background", BG + ": snip_method"), ("smoothing", SM + ": sgolay2d")], [],
     ["bin_1D", "statistics_1D", "bin_grid", "snip_method", "sgolay2d"],
     "exhaustive enumeration of samples, masks and options; direct reference implementations",
     "All lists of the stage tables; smoothing is judged on interior pixels and constants, border padding otherwise is not claimed.")
IM = "skbeam/core/image.py"
prop("C28", "Images rebuilt from radial or polar profiles have the right value at every pixel",
     """For every radial profile, image size, centre and pixel size, each pixel of the rebuilt image holds the value interpolated linearly at its own
     radius, with the requested values left and right of the profile. For every polar map, angle range and mask,
     each pixel inside the map holds the bilinear interpolation at its own radius and angle and not-a-number outside, masked map values
     are never used and no input is modified. The centre of a ring pattern that fills most of the image is found to the pixel, and inconsistent sizes, masks or angles are refused.""",
     ["inputs", "configurations"],
     "all profiles, sizes, centres, pixel sizes, side values, angle ranges and masks of the stage tables",
     "tests rebuild one profile and compare averages",
     [IM], [("radial interpolation", IM + ": construct_circ_avg_image"), ("polar interpolation", IM + ": construct_rphi_avg_image"),
            ("ring centre", IM + ": find_ring_center_acorr_1D")], [],
     ["construct_circ_avg_image", "construct_rphi_avg_image", "find_ring_center_acorr_1D"],
     "exhaustive enumeration of the argument alphabets; per-pixel interpolation reference",
     "Every pixel of every combination; pixels within 1e-9 of a cell border are compared with both sides.")
FE = "skbeam/core/feature.py"
CA = "skbeam/core/calibration.py"
FU = "skbeam/core/fitting/funcs.py"
prop("C29", "Peak refinement, selection and detector calibration recover the true values",
     """The quadratic and log-quadratic refinements return the exact peak of parabolic and Gaussian data, looking only at each
     candidate's own window cut at the borders, in candidate order. The selections keep exactly the requested number of largest
     candidates or exactly those high enough above their surroundings. Calibration from the rings of a standard gives back the detector
     distance and, from an image, the beam centre that produced it, in rows and columns, for oblong images and pixels as well.""",
     ["inputs", "configurations"],
     "all small sample patterns and candidate subsets, all standards and wavelengths of the stage tables, all centre offsets of the stage tables",
     "tests use one square image and symmetric data",
     [FE, CA, FU], [("refinement", FE + ": peak_refinement, refine_quadratic, refine_log_quadratic; " + FU + ": fit_quad_to_peak"),
                    ("selection", FE + ": filter_n_largest, filter_peak_height"), ("calibration", CA + ": estimate_d_blind, refine_center")], [],
     ["fit_quad_to_peak", "peak_refinement", "filter_n_largest", "filter_peak_height", "estimate_d_blind", "refine_center"],
     "exhaustive enumeration of sample patterns, candidate sets and geometries; exact rational least squares and known geometry as reference",
     "All patterns up to length 5 over the value alphabet; geometric recovery within the stated pixel and relative tolerances.")
prop("C26", "No function modifies its arguments or depends on their memory layout",
     """Calling any function of the library leaves every array, list and dictionary given to it exactly as it was, also when the call
     fails, and a second call with the same arguments gives the same result. Results do not depend on how the
     arrays lie in memory: contiguous, transposed, strided views into larger buffers, reversed views and read-only arrays all
     give the same values, and no byte outside the given view is touched.""",
     ["inputs", "configurations"],
     "a catalogue of calls covering the public functions, three argument variants each, every array in each of six memory layouts",
     "tests pass fresh contiguous arrays and never look at them again",
     ["skbeam/core", "skbeam/io", "src/ctrans.c"],
     [("argument handling", "all public functions of skbeam.core and skbeam.io"), ("compiled kernels", "src/ctrans.c, skbeam/core/accumulators/histogram.pyx")], [],
     ["every public function in the catalogue"],
     "exhaustive product of calls, variants and memory layouts; byte-wise comparison of the arguments and their buffers before and after, results compared with the contiguous call",
     "All 86 catalogue calls x 3 variants x 6 layouts. Functions documented to change their argument (output buffers, parameter bounds) are given their own copy.")
prop("C27", "Results depend on the arguments alone, never on earlier or interleaved calls",
     """Whatever was called before, successfully or not, whatever the caller did with earlier results, every call gives the result it gives
     in a fresh process, and results handed out earlier do not change. The same holds when another call runs in the middle of a
     call, at any point of it. Process-wide settings such as the floating-point error handling, warning filters, random generators, environment and working directory are left as they were.""",
     ["histories", "schedules"],
     "all ordered pairs of catalogue calls and variants, each with the first result kept and then overwritten, and every source line of every call as preemption point",
     "tests call each function on its own in a fixed order; caches, shared buffers, mutable defaults and left-over settings only show in particular sequences",
     ["skbeam/core", "skbeam/io", "src/ctrans.c"],
     [("module-level state", "line and parameter tables, strategy registry, element database, calibration standards"),
      ("shared buffers", "results returned by generators and accumulators")],
     [("module globals", "tables and registries shared by all calls", "skbeam/core/constants, skbeam/core/fitting")],
     ["every public function in the catalogue"],
     "exhaustive exploration of call histories of depth 2 (3 within a module) and of all single-preemption schedules at source-line granularity; oracle is the same call in a freshly forked process",
     "All ordered pairs of 258 calls; one preemption per execution at the first two visits of every source line; deeper nesting is not explored.")
prop("C30", "The number type in which data are stored does not change results",
     """Counts, intensities, positions and channel numbers give the same results in every integer and floating-point type that holds their
     values exactly: unsigned and signed integers of one to eight bytes, single and double precision, native or swapped byte
     order. Values up to the limit of the type are summed, squared, subtracted and averaged without wrapping around or losing precision
     (single precision itself within its own rounding); where a type is not supported the call fails instead of giving wrong numbers.""",
     ["inputs", "configurations"],
     "a table of calls covering the functions that take images, spectra, positions or counts; three data variants, fourteen number types, values up to small counts, a signed byte, two bytes and the limit of the type",
     "tests use double precision or default integers; detectors deliver bytes and 16-bit words, whose sums and differences wrap around silently",
     ["skbeam/core"],
     [("pixel arithmetic", "skbeam/core: correlation, speckle, roi, mask, image, dpc, cdi, utils, stats, smoothing"), ("spectrum arithmetic", "skbeam/core: spectroscopy, feature, calibration, fitting"),
      ("accumulators", "skbeam/core/accumulators")], [],
     ["every public function taking images, spectra, positions or counts"],
     "exhaustive product of calls, data variants, number types and value scales on the real code; oracle is the same call on the same values in double precision",
     "Values of 64-bit types up to 2^40; half precision is not claimed; histograms refuse swapped byte order.")
