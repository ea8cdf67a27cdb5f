"""Writes /verif/properties.jsonl (kept as a script so that the text is easy to review)."""
import json, os

M = "petrofit/modeling/models.py"
F = "petrofit/modeling/fitting.py"
P = "petrofit/petrosian/core.py"
C = "petrofit/petrosian/correction.py"
PH = "petrofit/photometry.py"
S = "petrofit/segmentation.py"
U = "petrofit/utils.py"


def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    return {
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": qtext},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "mechanism": [{"name": n, "where": w} for n, w in mech],
            "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
            "observe_at": list(observe), "hook_needed": hook,
        },
    }


L = []
L.append(prop(
    "C01", "A correction grid built in parallel is the grid built serially",
    "Generating a Petrosian correction grid returns exactly one row per requested (Sersic index, half-light radius) pair, ordered by index and then by radius in the order the lists were given, and each row's values depend only on its own pair and on the PSF and sampling settings. "
    "This holds whatever the number of worker processes, the order in which their results arrive, how the work is shared out and whatever was generated before. "
    "If computing a row fails (including a pair whose concentration cannot be measured) or a worker process dies, the call raises and saves nothing: it never returns or saves a grid with a missing, duplicated, reordered or substituted row.",
    ["schedules", "inputs", "configurations", "fault_sequences"],
    "all worker counts, dispatch and completion orders, row failures and worker deaths, and all index/radius lists (unsorted, repeated, single valued, above and below the 500-pair chunking threshold)",
    "The one test builds a small grid once, with whatever completion order the machine happens to produce and with no failure; completion orders, worker deaths and failing rows are never exercised.",
    [C], [("argument list in index-major order, rows collected from the serial loop or the progress-bar process map", f"{C}:generate_petrosian_sersic_correction"),
          ("per-pair computation", f"{C}:_generate_petrosian_correction")],
    [("process pool", "tasks in flight and their results", "astropy ProgressBar.map over concurrent.futures")],
    ["returned table", "output file"]))
L.append(prop(
    "C02", "A failed save never costs the computed correction grid",
    "Once every row of a correction grid is computed, the generating call returns the complete grid even if it cannot be saved, whether because of an unsupported format, an existing file, a missing or unwritable directory, or an I/O error at any moment of the save. "
    "A save that did not succeed is reported on standard output and an existing file is left as it was unless overwriting was requested; when nothing is reported, the named file holds exactly the returned grid. "
    "A user's interrupt during the save is not swallowed.",
    ["fault_sequences", "inputs", "configurations"],
    "all file names, formats, overwrite settings and pre-existing files, and every I/O failure (open, write, short write, disk full, close, rename, remove) at every position of the save",
    "Tests only save successfully to a writable directory; no I/O failure is ever provoked.",
    [C], [("save wrapped so that failures are printed and the table is returned", f"{C}:generate_petrosian_sersic_correction")],
    [("output file", "saved correction grid", "user-named path")],
    ["returned table", "standard output", "file system"]))
L.append(prop(
    "C03", "Saved correction grids are all-or-nothing",
    "Whenever saving a correction grid is cut short at any instant by a process crash or an I/O failure, the destination holds either what it held before (possibly nothing) or the complete new grid, and never something that loads as a different grid. "
    "A completed save loads back as the same grid: same rows, column names and values, bit for bit in the text and FITS table formats supported, also in a process that loaded something else from the same destination before. "
    "A load that meets an I/O error raises instead of returning a partial grid.",
    ["crash_points", "fault_sequences", "inputs"],
    "every crash point and torn write length during a save, new destination or overwrite, every grid content (including NaN, infinities and tiny values) and every read error position during a load",
    "Tests write and read one small grid once, with no crash or I/O error, and never look at a partially written file.",
    [C], [("grid writer", f"{C}:PetrosianCorrection.write"), ("grid reader", f"{C}:PetrosianCorrection.read"),
          ("save at the end of grid generation", f"{C}:generate_petrosian_sersic_correction")],
    [("grid file", "the stored correction grid", "user-named path")],
    ["grid read back by a fresh process"]))
L.append(prop(
    "C04", "A rendered model image depends only on the model's current state",
    "The image rendered from a PSF-convolved model is determined by its current parameter values, PSF, PSF angle, oversampling settings and the requested pixel coordinates: it equals direct sampling of the sub-model on the pixel (or oversampled) grid followed by PSF convolution and binning. "
    "Earlier renders at other sizes or origins, earlier settings, turning grid caching on or off, copies and other models leave no trace in it, and images already handed out never change. "
    "This also holds for renders that follow a render that was interrupted or ran out of memory at any point.",
    ["histories", "inputs", "configurations", "fault_sequences"],
    "all sequences of parameter changes, setting changes, renders at any size/origin/shape, cache toggles, copies and interrupted or out-of-memory renders",
    "Tests render a handful of fixed images on fresh models; sequences of different sizes, origins and factors on one object, and faults between two renders, are not covered.",
    [M, F], [("sampling grid cache keyed on size, factor and range", f"{M}:PSFConvolvedModel2D.evaluate"),
             ("cache clearing", f"{M}:PSFConvolvedModel2D.clear_cached_grid"),
             ("window oversampling", f"{M}:PSFConvolvedModel2D.evaluate"),
             ("origin handling", f"{F}:model_to_image")],
    [("cached sampling grid", "last grid and its key", f"{M}:PSFConvolvedModel2D")],
    ["rendered image"]))
L.append(prop(
    "C05", "Threads rendering from a shared model get uncorrupted images",
    "When several threads render images from the same PSF-convolved model at once, at the same or different sizes and origins and while others copy the model, take its sub-model or toggle grid caching, every thread gets the image it would have got alone. "
    "Afterwards the model still renders correctly and no thread deadlocks or fails.",
    ["schedules", "inputs"],
    "all interleavings, at the points where the interpreter can switch threads, of renders, copies, sub-model snapshots and cache toggles on shared and separate models",
    "No test uses threads; a race window of a few bytecodes in the grid cache would essentially never be hit by chance.",
    [M], [("sampling grid cache read and refill", f"{M}:PSFConvolvedModel2D.evaluate")],
    [("cached sampling grid", "shared by all threads using the model", f"{M}:PSFConvolvedModel2D")],
    ["image returned to each thread"]))
L.append(prop(
    "C06", "Rejected sampling settings change nothing; accepted ones can be rendered",
    "Assigning a PSF, oversampling or PSF-oversampling value either takes effect completely or raises and leaves the model exactly as it was. "
    "Whatever the order of assignments, in every state reached the oversampling factor (one if unset) is a whole multiple of the PSF oversampling factor (one if unset), "
    "and every such state (two-dimensional PSF, window centred on finite numbers or on the model's own parameters) renders an image of the requested shape, including when the window lies partly or wholly outside the image.",
    ["histories", "inputs", "configurations"],
    "all sequences of valid and invalid assignments of PSF, oversample (none, integer, window) and PSF oversample, interleaved with renders and interrupts, and all window positions",
    "Tests check individual rejections on fresh models; the reachable states after sequences of assignments, and windows outside the image, are not explored.",
    [M], [("setter validation", f"{M}:PSFConvolvedModel2D.oversample / psf_oversample / psf / cache_grid"),
          ("window clipping", f"{M}:PSFConvolvedModel2D.evaluate")],
    [("sampling settings", "oversample, psf_oversample, psf, cache_grid", f"{M}:PSFConvolvedModel2D")],
    ["settings read back", "rendered image"]))
L.append(prop(
    "C07", "Petrosian read-outs always follow the current profile and settings",
    "Every quantity read from a Petrosian profile (radii, fluxes, errors, concentrations) equals what a profile freshly built from the same measurements with the current eta, epsilon, fraction and interpolation settings gives. "
    "The order and number of earlier reads, earlier setting changes, interrupted reads, reads from several threads, other profiles and later changes to the arrays it was built from have no influence. "
    "Reading never changes the profile, and every documented quantity can be read.",
    ["histories", "inputs", "schedules", "fault_sequences"],
    "all sequences and interleavings of setting changes and reads, interrupts at any point of a read, and modifications of the caller's arrays after construction",
    "Tests read a few values from fresh profiles; setting changes after reads, interrupted or concurrent reads and array aliasing are not explored.",
    [P], [("derived quantities recomputed from stored arrays and settings", f"{P}:Petrosian"),
          ("input arrays copied", f"{P}:Petrosian.__init__"), ("working copies made before patching the first element", f"{P}:calculate_petrosian_r")],
    [("profile arrays and settings", "inputs of all derived quantities", f"{P}:Petrosian")],
    ["public read-outs"]))
L.append(prop(
    "C08", "Copies, sub-models and corrected profiles are independent objects",
    "A model copy, a pickled and restored model, the sub-model taken from a PSF-convolved model, a copied Petrosian profile and a corrected profile are equal in value to their source when made. "
    "Changing settings, parameter values, fixed flags or bounds of either one afterwards never changes what the other reports or renders, nor the sub-model a PSF-convolved model was built from.",
    ["histories", "inputs", "fault_sequences"],
    "all families of objects derived from one another by copying, pickling, wrapping, sub-model extraction and correction, followed by any sequence of changes and reads on any member, with interrupts",
    "Tests check single copies right after they are made, not arbitrary derivation chains followed by interleaved changes.",
    [M, P, C], [("parameters, fixed flags and bounds re-created per wrapper", f"{M}:PSFConvolvedModel2D._load_parameters"),
                ("sub-model snapshot", f"{M}:PSFConvolvedModel2D.model"), ("corrected copy", f"{C}:PetrosianCorrection.correct")],
    [("parameter, constraint and setting stores", "must not be shared between objects", f"{M}:PSFConvolvedModel2D")],
    ["parameters, constraints, settings, images, read-outs"]))
L.append(prop(
    "C09", "Fitting leaves its inputs untouched and is repeatable",
    "Fitting a model or a background to an image returns a new model and leaves the given model (parameter values, constraints, settings), image and weights as they were, also when the fit fails or is interrupted at any point. "
    "The same fit repeated, after any other fits, on the same or a fresh model, by one thread or several, gives the same result; the default background model is never altered by earlier background fits.",
    ["histories", "fault_sequences", "schedules", "inputs"],
    "all sequences of fits (several fitters, weights, masked pixels, constraints), interrupts and numerical failures at any model evaluation, and concurrent fits",
    "Tests run a few successful fits on fresh models and compare the parameters found; interrupted, repeated and concurrent fits and side effects on the inputs are not covered.",
    [F, M], [("fit wrapper selecting finite pixels", f"{F}:fit_model"), ("default background model argument", f"{F}:fit_background"),
             ("model copy made by the fitter", "astropy.modeling.fitting")],
    [("default background model", "module-level default argument shared by all calls", f"{F}:fit_background")],
    ["fitted parameters", "input model, image and weights"]))
L.append(prop(
    "C10", "No call modifies the caller's data",
    "No public function or method changes the arrays, lists, tables, images, segmentation maps, PSFs or models it is given, whatever their type, element type or memory layout, whether the call succeeds, raises, runs out of memory or is interrupted; read-only arrays are accepted wherever writable ones are. "
    "Results handed to the caller share no memory with those inputs unless documented, so changing a result never changes the input.",
    ["inputs", "histories", "fault_sequences"],
    "all public calls, argument types (lists, arrays of several element types, byte orders and layouts, read-only arrays, image containers) and faults at any point of the call",
    "Tests do not compare inputs before and after calls; failing and interrupted calls are not exercised at all.",
    [S, PH, P, U, F, C, M], [("deep copy of the image before masking", f"{S}:masked_segm_image"), ("cutouts and masks", f"{S}:source_photometry"),
                          ("array copies", f"{P}:calculate_petrosian_r"), ("copied image", f"{U}:cutout_subtract")],
    [("caller's arguments", "owned by the caller", "all public functions")],
    ["arguments after the call"]))
L.append(prop(
    "C11", "Calls leave process-wide state as they found it",
    "A call that returns, raises, is interrupted or runs out of memory leaves the process's warning filters, floating-point error handling, print options, random generators (plotting calls excepted), working directory, environment, plotting defaults, signal handlers and open files as they were before the call. "
    "Only plotting calls create figures.",
    ["fault_sequences", "inputs", "histories"],
    "all public calls in any order, with a failure, interrupt or memory exhaustion at any point of the call",
    "Tests never look at global state, and never interrupt a call half-way.",
    [S, C, PH, F, U], [("temporary warning filter", f"{S}:source_photometry"), ("progress bar and process pool", f"{C}:generate_petrosian_sersic_correction")],
    [("warning filters, numpy error state, random state, figures", "process-wide", "process")],
    ["process state after the call"]))
L.append(prop(
    "C12", "Measuring many sources does not depend on order or on concurrency",
    "The fluxes, areas and errors measured for a source depend only on that source, the image, the segmentation map, the error map and the options. "
    "They are the same whether the source is measured first, last, repeatedly, alone or among others, before or after a failed or interrupted measurement, or by one of several threads working on the same catalogue.",
    ["schedules", "histories", "inputs", "fault_sequences"],
    "all orders and interleavings of measurements over the sources of a catalogue with any options, and failures or interrupts during other measurements",
    "Tests measure sources once in catalogue order with one option set, in a single thread.",
    [S, PH, F], [("masked private copies of the image per source", f"{S}:source_photometry"), ("background plane fit", f"{F}:fit_background"),
                 ("aperture sums", f"{PH}:radial_photometry")],
    [("shared image, segmentation map and error map", "read by all measurements", f"{S}:source_photometry")],
    ["returned flux, area and error arrays"]))
L.append(prop(
    "C13", "A failed isophote fit is contained",
    "Measuring the amplitude at an isophotal radius never fails because the underlying isophote fit failed: any error raised while fitting, at whatever stage, results in a not-a-number amplitude and exactly one warning carrying the error's text. "
    "A user's interrupt is not swallowed, a successful fit returns the fitted intensity without such a warning, and a failure leaves later measurements unaffected.",
    ["fault_sequences", "inputs", "histories"],
    "all sequences of measurements with any exception raised at any stage of the isophote fit (geometry, sampling, fitting, reading the intensity)",
    "Tests exercise the successful path and at most one failure; exceptions of other kinds and at other stages cannot be provoked with plain inputs.",
    [S], [("exception guard returning NaN with a warning", f"{S}:get_amplitude_at_r")],
    [], ["returned amplitude", "warnings", "propagated exceptions"]))
L.append(prop(
    "C14", "Correction look-ups are stable and non-destructive",
    "Estimating an index or epsilon, or correcting a profile, depends only on the grid and on the profile's measurements and current settings: the same question gets the same answer after any other look-ups, filtering, plotting, saving or failed and interrupted look-ups, from any thread. "
    "Look-ups change neither the grid nor the profile, and every supported eta and epsilon fraction gets an answer while unsupported ones raise.",
    ["histories", "schedules", "inputs", "fault_sequences"],
    "all sequences and interleavings of look-ups over many profiles and settings, with failures and interrupts in between, and grids in any row order",
    "Tests make a couple of look-ups with default settings on one grid.",
    [C], [("nearest-row search", f"{C}:PetrosianCorrection._closest_row"), ("epsilon per eta and fraction", f"{C}:PetrosianCorrection.estimate_epsilon"),
          ("corrected copy", f"{C}:PetrosianCorrection.correct")],
    [("grid table and coordinate columns", "read by every look-up", f"{C}:PetrosianCorrection")],
    ["estimates", "corrected profile", "grid"]))
L.append(prop(
    "C15", "Plotting only observes",
    "Drawing a profile, curve of growth, apertures, segmentation map, target, fit or correction grid, or asking a measuring function to plot as well, changes no measured value: results equal those obtained without plotting, and every well-measured profile, fit and correction grid can be drawn. "
    "If drawing fails or is interrupted at any point, the objects involved still give the same values as before.",
    ["histories", "fault_sequences", "inputs"],
    "all sequences of plotting calls with any options interleaved with measurements, and a failure of any drawing operation",
    "Tests call the plotting functions once and ignore their effect on later results; drawing failures are never simulated.",
    [P, PH, S, C, F, U], [("plot methods read derived quantities only", f"{P}:Petrosian.plot / plot_cog / imshow"),
                          ("optional plotting inside measurements", f"{PH}:radial_photometry, {S}:make_catalog, {S}:source_photometry")],
    [], ["measured values with and without plotting"]))
L.append(prop(
    "C16", "Results are reproducible",
    "Repeating an analysis (segmentation, photometry, profiles, fits, model images, correction grids) on the same inputs gives bit-for-bit the same numbers whatever the state of the random generators, the hash seed, the clock and its jumps, garbage-collection timing, the number of processors, the working directory and locale, and the analyses run earlier in the process. "
    "Only colours of segmentation plots may differ.",
    ["histories", "schedules", "configurations"],
    "all states of the ambient environment (random generators, clock, hash seed, processor count, directory, garbage collection) and preceding work",
    "Tests compare to tolerances in one environment; they never change ambient state between two runs of the same analysis.",
    [S, PH, P, F, M, C], [("deterministic computation from arguments", "all modules"), ("random colours only", f"{S}:plot_segments")],
    [], ["all returned numbers"]))

# Pure functions of their arguments: stated, not claimed (see DESIGN.md).
L.append(prop(
    "N01", "The Petrosian profile and radii follow their definitions",
    "The Petrosian index at each radius is the ratio of the surface brightness in the annulus ending there to the mean surface brightness inside it, and the Petrosian radius is the first radius at which the interpolated profile falls to eta (not-a-number when it never does). "
    "Scaling all fluxes leaves it unchanged and scaling all radii scales it.",
    ["inputs"], "all radius, area and flux profiles, eta values and interpolation kinds",
    "Tests compare a few analytic profiles.", [P, U],
    [("profile", f"{P}:calculate_petrosian"), ("radius", f"{P}:calculate_petrosian_r"), ("first crossing", f"{U}:closest_value_index")]))
L.append(prop(
    "N02", "Flux-fraction radii are consistent with the curve of growth",
    "The radius enclosing a given fraction of the total flux grows with the fraction, encloses that fraction of the measured curve of growth and is not-a-number when the total-flux radius lies outside the measured range; concentration indices are five times the decimal log of the ratio of two such radii.",
    ["inputs"], "all monotonic curves of growth, fractions, epsilon and epsilon fractions",
    "Tests sample a few Sersic profiles.", [P],
    [("fraction radius", f"{P}:fraction_to_r"), ("concentration", f"{P}:calculate_concentration_index")]))
L.append(prop(
    "N03", "Error estimates behave as one-sigma propagation",
    "Errors reported for Petrosian values, radii and fluxes are non-negative, zero when the input errors are zero and grow with the input errors.",
    ["inputs"], "all profiles and error arrays", "Tests only check that errors exist.", [P],
    [("error propagation", f"{P}:calculate_petrosian, calculate_petrosian_r, fraction_to_r")]))
L.append(prop(
    "N04", "Aperture photometry measures exact elliptical sums",
    "For each radius the flux and area are the exact sum of the unmasked image, and of ones, over the ellipse of that semi-major radius; they add linearly over images and ignore masked pixels.",
    ["inputs"], "all images, masks, positions, radii, elongations and angles", "Tests use constant images.", [PH],
    [("aperture sums", f"{PH}:radial_photometry")]))
L.append(prop(
    "N05", "Sersic helper functions agree with one another",
    "The analytic enclosed flux increases to the finite total, its inverse returns the radius, the analytic Petrosian profile is the local-to-mean brightness ratio of the same profile, and central and effective intensities convert back and forth.",
    ["inputs"], "all amplitudes, radii and indices", "Tests sample a few values.", [M],
    [("enclosed flux and inverse", f"{M}:sersic_enclosed, sersic_enclosed_inv"), ("profile", f"{M}:petrosian_profile"), ("conversion", f"{M}:Ie_to_I0, I0_to_Ie")]))
L.append(prop(
    "N06", "Generalised Sersic, Nuker and core-Sersic models follow their definitions",
    "Each analytic surface-brightness model equals its published formula at every coordinate and reduces to its special cases (zero boxiness gives the plain Sersic model).",
    ["inputs"], "all parameters and coordinates", "Tests do not sample these models broadly.", [M],
    [("formulas", f"{M}:GenSersic2D, Nuker2D, CoreSersic2D")]))
L.append(prop(
    "N07", "Fits recover the parameters of noiseless models",
    "Fitting a model to its own noiseless image from a nearby start recovers its parameters within the requested accuracy, inside the bounds and with fixed parameters kept.",
    ["inputs"], "all models, starts, bounds and weights", "Tests fit a few models.", [F],
    [("fit wrapper", f"{F}:fit_model")]))
L.append(prop(
    "N08", "Corrected profiles recover Sersic radii",
    "For a Sersic galaxy covered by the correction grid the corrected total-flux and half-light radii are within the grid's resolution of the true ones.",
    ["inputs"], "all galaxies covered by the grid", "Tests check a few grid nodes.", [C],
    [("correction", f"{C}:PetrosianCorrection.correct")]))
L.append(prop(
    "N09", "Segmentation masks select exactly the requested sources",
    "A mask is true exactly on the pixels of the requested labels, plus the background unless it is masked, and the masked image equals the image there and the fill value elsewhere; catalogue ordering sorts by the chosen column.",
    ["inputs"], "all label sets, segmentation maps and fills", "Tests check one image.", [S],
    [("mask", f"{S}:segm_mask"), ("masked image", f"{S}:masked_segm_image"), ("order", f"{S}:order_cat")]))
L.append(prop(
    "N10", "Unit, angle and shape conversions are mutually inverse",
    "Pixel/angular sizes, ellipticity/elongation and area/radius conversions invert one another, magnitudes follow the header zero points with not-a-number for non-positive fluxes, radius lists end at the maximum with the requested length, and natural sorting orders numbers inside strings by value.",
    ["inputs"], "all values, headers and coordinate systems", "Tests check single values.", [U],
    [("conversions", f"{U}:pixel_to_angular, angular_to_pixel, ellip_to_elong, elong_to_ellip, elliptical_area_to_r, make_radius_list, hst_flux_to_abmag, natural_sort")]))

out = os.path.join(os.path.dirname(__file__), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in L:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(L))
