#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that it can be edited)."""
import json, os

P = []


def add(id, title, statement, over, text, why, files, mechanism, observe, state=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(
        dict(
            id=id,
            title=title,
            statement=statement,
            quantifier=dict(over=over, text=text),
            why_tests_cant=why,
            anchors=dict(
                files=files,
                state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                mechanism=[dict(name=a, where=b) for a, b in mechanism],
                observe_at=observe,
                hook_needed=hook,
            ),
        )
    )


# ---------------------------------------------------------------- compiled, multi-threaded kernels
add(
    "C01",
    "3-D gridding gives the same, complete result under every thread schedule",
    "Gridding a set of (x, y, z, intensity) points counts every in-range, non-NaN point in exactly one voxel, and "
    "the returned sums, sums of squares, counts, means and standard errors equal those of a single-threaded "
    "reference for every number of worker threads and every interleaving of them. With default bounds every finite "
    "unmasked point is counted, and no memory outside the grid is read or written.",
    ["schedules", "configurations", "inputs"],
    "every OpenMP team size, every interleaving of the team's memory accesses and barriers, every previous content "
    "of freshly allocated memory, every grid shape / point set / mask",
    "the existing tests run one uncontrolled schedule per process on one machine; a racy schedule almost never "
    "occurs there and cannot be replayed when it does",
    ["src/ctrans.c", "skbeam/core/utils.py"],
    [("per-thread partial grids merged after the parallel region", "src/ctrans.c:c_grid3d"),
     ("upper bound padded so that the largest point is in range", "skbeam/core/utils.py:grid3d")],
    ["return values of ctrans.grid3d and skbeam.core.utils.grid3d"],
    state=[("threadData", "per-thread partial grids", "src/ctrans.c:c_grid3d")],
)
add(
    "C02",
    "Running out of memory in the native kernels is a clean, retryable error",
    "If any memory allocation made by the gridding or angle-to-Q kernel fails, in any thread and at any moment, the "
    "call ends with a MemoryError instead of hanging, crashing, returning a result or raising anything else. It then "
    "leaves accumulation arrays supplied by the caller unchanged, releases everything it had allocated, and the same "
    "call repeated once memory is available gives the normal result. No call, failed or not, keeps hold of memory or of "
    "the caller's arrays once its result is gone.",
    ["fault_sequences", "schedules"],
    "every set of failing allocations x every thread schedule x both kernels",
    "no test makes an allocation fail, and the failing path also depends on which threads of the team fail",
    ["src/ctrans.c"],
    [("allocation checks and the error/cleanup exits", "src/ctrans.c:c_grid3d, ccdToQ")],
    ["exception type, caller's arrays, live allocations after the call"],
)
add(
    "C03",
    "Angle-to-Q conversion of each image is independent of threads and batching",
    "Converting a stack of detector images to reciprocal space gives, for every image and pixel, exactly the value "
    "obtained by converting that image alone on one thread, and agrees with the published six-circle formulas in "
    "every frame mode. The result does not depend on the number of worker threads, how they interleave, or which "
    "other images are in the stack.",
    ["schedules", "configurations", "inputs"],
    "every team size, interleaving, image count, detector shape, frame mode and orientation matrix",
    "tests convert a few stacks on one uncontrolled schedule and look at a handful of pixels",
    ["src/ctrans.c", "skbeam/core/recip.py"],
    [("per-image output slices inside the parallel loop", "src/ctrans.c:processImages")],
    ["return value of process_to_q"],
)
add(
    "C04",
    "Feeding gridding output back in accumulates like one pass over all the data",
    "Gridding data in any number of batches, each batch passing back the previous sums, sums of squares and counts, "
    "gives the same sums, counts and standard errors as gridding the concatenated data once. This holds for every "
    "split and order of the batches, including empty batches and batches that failed and were retried, and a failed "
    "batch adds nothing.",
    ["histories", "schedules", "fault_sequences"],
    "every split of the data into batches, every batch order, every interleaving inside each batch, failures of "
    "individual batches followed by a retry",
    "tests accumulate nothing or one fixed split; batches that miss voxels filled earlier are never looked at",
    ["src/ctrans.c"],
    [("accumulation into caller-supplied arrays; standard error from accumulated sums", "src/ctrans.c:c_grid3d")],
    ["return values and in/out arrays of ctrans.grid3d"],
)
# ---------------------------------------------------------------- process pool
add(
    "X01",
    "Parallel XRF pixel fitting returns every pixel in its place for any schedule",
    "Fitting a whole map of fluorescence spectra with the process pool returns, at every (row, column), exactly the "
    "numbers a plain sequential non-negative fit of that pixel gives (weights, background sum, and the fit quality figure 1 - residual norm / total sum of squares), with or "
    "without background subtraction. This holds for any number of workers and whatever the order in which workers "
    "pick up, run and finish rows.",
    ["schedules", "configurations", "inputs"],
    "every worker count, every assignment and completion order of rows, every map shape, background on or off",
    "the test fits one 3x3 map whose pixels are all alike on the real pool, so a misplaced, repeated or lost row is "
    "invisible; schedules are whatever the machine did",
    ["skbeam/core/fitting/xrf_model.py"],
    [("row-wise submission and in-order collection of results", "skbeam/core/fitting/xrf_model.py:fit_pixel_multiprocess_nnls")],
    ["return value of fit_pixel_multiprocess_nnls"],
)
add(
    "X02",
    "A failing worker surfaces to the caller and the process pool is released",
    "If fitting any row of a map fails, or the caller is interrupted while waiting, the error reaches the caller "
    "instead of a partial, reordered or placeholder map. In every outcome the pool has been shut down and its workers "
    "reaped by the time the call returns or raises, and the next call works normally.",
    ["fault_sequences", "schedules", "crash_points"],
    "every set of failing rows and failure kinds, interruption at every wait, every schedule",
    "no test has a failing worker; leaked pools do not show in a test's result",
    ["skbeam/core/fitting/xrf_model.py"],
    [("collection of results and pool shutdown", "skbeam/core/fitting/xrf_model.py:fit_pixel_multiprocess_nnls")],
    ["exception seen by the caller; state of the pool afterwards"],
)
# ---------------------------------------------------------------- streaming
add(
    "S01",
    "One-time correlation of a stream survives stops, crashes and bad frames",
    "After every frame of a stream the one-time correlation result equals the direct multi-tau definition applied to "
    "all frames delivered so far, frames marked bad being left out of every average they would enter. This holds "
    "however the stream is cut up, stopped, and resumed from the state handed out with a result or a saved copy of "
    "it, including after the process died in the middle of a frame and went back to the last saved state.",
    ["histories", "crash_points", "fault_sequences", "configurations"],
    "every stream length, region map, number of levels and buffers, set of bad frames, set of stop/resume points, "
    "crash point and checkpoint schedule",
    "tests run one or two fixed stacks, resume once at one place, and compare with the code itself",
    ["skbeam/core/correlation.py", "skbeam/core/mask.py"],
    [("ring buffers and running averages carried in the yielded state", "skbeam/core/correlation.py:lazy_one_time"),
     ("bad-frame bookkeeping", "skbeam/core/correlation.py:_one_time_process")],
    ["every yielded g2 / lag_steps"],
    state=[("internal state", "everything needed to resume", "skbeam/core/correlation.py:_internal_state")],
)
add(
    "S02",
    "Two-time correlation of a stream survives stops, crashes and early looks",
    "After any number of frames the two-time matrix equals its direct multi-tau definition on the frames delivered "
    "so far and is symmetric once converted to results. Stopping, resuming from handed-out or saved state, crashing "
    "between or inside frames and returning to a saved state, or converting a partial state to results and then "
    "carrying on, never changes any later result.",
    ["histories", "crash_points", "configurations"],
    "every stream length, region map, level/buffer setting, stop/resume/crash/look schedule",
    "tests process one fixed stack straight through and check a few entries",
    ["skbeam/core/correlation.py"],
    [("ring buffers, per-level time indices and result matrix carried in the yielded state",
      "skbeam/core/correlation.py:lazy_two_time"),
     ("partial results", "skbeam/core/correlation.py:two_time_state_to_results")],
    ["every yielded state converted to results"],
    state=[("internal state", "everything needed to resume", "skbeam/core/correlation.py:_two_time_internal_state")],
)
add(
    "S03",
    "A phase-contrast scan can be stopped, resumed and previewed at any frame",
    "While a differential phase contrast scan streams in, every processed scan position holds the fit of its own "
    "frame, in scan order, and every unprocessed one is still zero. Stopping, resuming from handed-out or saved "
    "state, crashing inside a frame and returning to a saved state, and reconstructing previews from partial data "
    "never change the final phase and amplitude images, which equal those of one uninterrupted run.",
    ["histories", "crash_points", "fault_sequences"],
    "every scan shape, stop/resume/crash/preview schedule, region of interest and bad pixel list",
    "tests run one scan straight through",
    ["skbeam/core/dpc.py"],
    [("per-position results and frame index carried in the yielded state", "skbeam/core/dpc.py:lazy_dpc"),
     ("preview", "skbeam/core/dpc.py:reconstruct_phase_from_partial_info")],
    ["every yielded state; reconstructed phase and amplitude"],
)
add(
    "S04",
    "A frame that cannot be used leaves a streaming analysis resumable",
    "If the frame source raises, or delivers a frame the analysis rejects, the exception reaches the consumer and "
    "the accumulated state is exactly what it was after the last good frame. Continuing from that state with the "
    "remaining frames gives the same results as if the failed delivery had never happened, for one-time and two-time "
    "correlation and for phase contrast scans.",
    ["fault_sequences", "histories"],
    "every position and kind of failing delivery (source error, too small, wrong type, wrong rank), any number of "
    "them, every analysis configuration",
    "no test delivers a failing frame to a streaming analysis and then carries on",
    ["skbeam/core/correlation.py", "skbeam/core/dpc.py"],
    [("order of validation and state update per frame", "skbeam/core/correlation.py:lazy_one_time, lazy_two_time; skbeam/core/dpc.py:lazy_dpc")],
    ["state and results before and after a failed delivery"],
)
add(
    "S05",
    "Stream stages are lazy, one-in one-out, and interleaved streams do not mix",
    "Bad-frame marking and hot-pixel masking yield exactly one output per input frame, in order, pulling each frame "
    "only when its output is asked for; good frames pass through unaltered, frames listed bad come out as all-NaN "
    "frames of the right shape, and a pixel is masked from the first frame that reaches the threshold onward. Any "
    "number of streaming analyses advanced in any interleaving, sharing frames, region maps and masks, each give "
    "exactly what they give alone, and no input frame or region map is modified. What a stage has handed out belongs "
    "to the consumer: it never changes afterwards, and overwriting it does not influence what the stage yields later.",
    ["schedules", "histories", "fault_sequences"],
    "every interleaving of several pipelines, every early stop, every bad list and threshold",
    "tests drive one stage at a time to exhaustion",
    ["skbeam/core/mask.py", "skbeam/core/correlation.py", "skbeam/core/dpc.py"],
    [("generators holding their own state", "skbeam/core/mask.py:bad_to_nan_gen, threshold"),
     ("per-generator state", "skbeam/core/correlation.py, skbeam/core/dpc.py")],
    ["yielded frames, masks and results; how many frames were pulled from the source"],
)
add(
    "S06",
    "Whole-series reductions give the same answer however the frames arrive",
    "One-time and two-time correlation of a series, speckle visibility, the brightest pixel and the mean intensity of "
    "the regions and the kymograph take every frame exactly once, in order, from an array, a list, a generator, a bad-frame-marking "
    "stream or a detector that reuses one frame buffer, in any pixel data type, and give the answer their definition "
    "gives for those frames. A source that fails, or an interrupt, reaches the caller as that error and never as a "
    "result; the call repeated afterwards gives the full answer. Series reduced by other threads at the same time do "
    "not matter, and frames and region maps are never modified.",
    ["schedules", "fault_sequences", "histories"],
    "every way of delivery, every position of a failing delivery or interrupt, every interleaving of several callers",
    "tests hand over one small in-memory array per call",
    ["skbeam/core/correlation.py", "skbeam/core/speckle.py", "skbeam/core/roi.py"],
    [("loops over frames and image sets", "skbeam/core/speckle.py:xsvs; skbeam/core/roi.py:roi_max_counts, mean_intensity, kymograph"),
     ("drivers of the lazy correlators", "skbeam/core/correlation.py:multi_tau_auto_corr, two_time_corr")],
    ["the returned arrays, the exception, how many frames were taken"],
)
# ---------------------------------------------------------------- accumulators / reusable objects
add(
    "A01",
    "Histogram contents are exactly the sum of the accepted fills, in any history",
    "After any sequence of fills, rejected fills and resets a histogram holds in every bin exactly the total weight "
    "of the accepted points since the last reset whose coordinates lie in that bin's half-open interval, whatever "
    "the dimensionality, the numeric types and the way the points were split over calls. A rejected fill changes "
    "nothing, and callers on several threads filling one or several histograms lose or duplicate nothing.",
    ["histories", "schedules", "fault_sequences"],
    "every sequence of fill/reset/rejected fill, every interleaving of caller threads, 1 to 4 dimensions, every "
    "supported coordinate and weight type",
    "tests do one or two fills of each kind on fresh objects",
    ["skbeam/core/accumulators/histogram.pyx"],
    [("argument checks before accumulation; type-specialised fill loops", "skbeam/core/accumulators/histogram.pyx:Histogram.fill")],
    ["Histogram.values"],
)
add(
    "A02",
    "A binned-statistic object answers concurrent and repeated calls independently",
    "Every call on a binned-statistic object (1-D, 2-D, N-D, radial, radial-angular) returns the requested statistic "
    "of the values passed to that call over the bins fixed at construction, as a direct per-bin evaluation gives "
    "it. This is so in any history of calls: repeated, with different statistics, from several threads at once, "
    "re-entrantly from a user-supplied statistic, and after calls that failed; earlier results and the arrays "
    "passed in are never altered. The bin map it reports gives, for every point and dimension, the bin that point is "
    "counted in.",
    ["schedules", "histories", "fault_sequences", "inputs"],
    "every interleaving of caller threads, every sequence of statistics, failing and re-entrant user statistics, "
    "masks, bin specifications",
    "tests make isolated calls from one thread",
    ["skbeam/core/accumulators/binned_statistic.py"],
    [("binning cached at construction, per-call evaluation", "skbeam/core/accumulators/binned_statistic.py:BinnedStatisticDD.__call__")],
    ["return values, earlier return values, caller arrays"],
)
add(
    "A03",
    "A cross-correlator object can be reused and shared without cross-talk",
    "Every call on a cross-correlator returns the masked cross-correlation of the images passed to that call, as the "
    "direct sum over pixel pairs gives it for each region and normalisation. This is so for any history of calls on "
    "the same object: repeated, autocorrelation after cross-correlation, from several threads at once, after failed "
    "calls; earlier results and input images are never altered, and the lag positions it reports are those of its results.",
    ["schedules", "histories", "fault_sequences", "inputs"],
    "every interleaving of caller threads, every call sequence, masks and region ids, 1-D and 2-D, every normalisation",
    "tests construct one object per call and compare a few numbers",
    ["skbeam/core/correlation.py"],
    [("mask correlations cached at construction, per-call evaluation", "skbeam/core/correlation.py:CrossCorrelator")],
    ["return values, earlier return values, caller arrays"],
)
# ---------------------------------------------------------------- library-wide
add(
    "T01",
    "Concurrent callers of library functions get the same answers as sequential ones",
    "Any library computation, called from several threads at the same time on shared inputs, returns exactly what it "
    "returns when called alone, and leaves the shared inputs unmodified. What one caller asks for, or a call that "
    "fails part-way, has no effect on the answer another or a later caller gets.",
    ["schedules", "histories"],
    "every interleaving of caller threads over a catalogue of the library's public functions, with calls that fail "
    "mixed in",
    "tests call one function at a time from one thread, with inputs nobody else looks at",
    ["skbeam/core", "skbeam/core/fitting", "skbeam/core/constants"],
    [("functions working on local copies; module-level tables only read", "skbeam/core/**")],
    ["return values and inputs of every call"],
)
add(
    "P01",
    "XRF fit set-ups do not leak parameters or strategies into each other",
    "Building, configuring and evaluating fluorescence parameter controllers and spectrum models in any order, "
    "interleaved or after failed steps, gives each of them exactly the parameters its own history implies, and the "
    "parameter dictionary passed in, the library's defaults and the built-in strategies stay as they were. A "
    "strategy registered under a name is returned under that name until replaced, and refusing a duplicate "
    "registration changes nothing.",
    ["histories", "schedules"],
    "every interleaving of several set-ups sharing one parameter dictionary, including failing steps",
    "tests build one set-up at a time from a fresh copy of the defaults",
    ["skbeam/core/fitting/xrf_model.py", "skbeam/core/fitting/base/parameter_data.py"],
    [("deep copies of the caller's dictionaries; strategy registry", "skbeam/core/fitting/xrf_model.py:ParamController, register_strategy")],
    ["params of every controller/model, caller's dictionary, module-level defaults"],
)
add(
    "R01",
    "Phase retrieval depends only on its inputs and random stream, never on timing",
    "Coherent-diffraction reconstruction run with the same inputs and random stream gives the same object and error "
    "traces whatever the clock does and whether or not a progress callback is installed, and leaves its inputs "
    "unmodified. The callback is called once every requested number of iterations with the current object, and an "
    "exception from it stops the reconstruction and reaches the caller with inputs still intact.",
    ["schedules", "fault_sequences", "histories"],
    "every clock behaviour (stalls, jumps, backward steps), callback cadence, callback failure point and random stream",
    "tests run one reconstruction with the real clock and no failing callback",
    ["skbeam/core/cdi.py"],
    [("iteration loop, callback cadence, clock used for logging only", "skbeam/core/cdi.py:cdi_recon")],
    ["returned object and error dictionaries, callback calls, inputs"],
)
# ---------------------------------------------------------------- files
add(
    "F01",
    "A save that returns has put the whole data set on disk; failures are raised",
    "When saving powder data or a mask returns normally, the target file is complete and reads back as the data given (to the "
    "precision of the format), whatever short writes or interrupted system calls occurred underneath. When the "
    "operating system reports an error at any point (open, write, close, removal of the old file), the save raises "
    "an error, and saving again after the fault has cleared succeeds.",
    ["fault_sequences", "crash_points", "inputs"],
    "every fault kind at every file-system call of every save format, with and without an existing target",
    "tests never inject an I/O fault and only check that a file exists or two columns",
    ["skbeam/io/save_powder_output.py", "skbeam/io/fit2d.py"],
    [("write under a context manager, errors propagate", "skbeam/io/save_powder_output.py:save_output, gsas_writer"), ("mask writing and its size check", "skbeam/io/fit2d.py:fit2d_save")],
    ["bytes on disk, exception"],
)
add(
    "F02",
    "Rejected saves change nothing on disk and no save touches another file",
    "A save refused because of its arguments leaves the directory exactly as it was: an existing file of that name "
    "keeps its bytes and nothing new appears. No save, whether it succeeds, fails on an I/O fault or dies half-way, "
    "alters or removes any file other than its own target, and interleaved saves to different targets do not affect "
    "each other.",
    ["histories", "fault_sequences", "crash_points"],
    "every sequence of accepted, rejected, failing and dying saves over a directory with existing files",
    "tests check that bad arguments raise, not what happened to the files",
    ["skbeam/io/save_powder_output.py"],
    [("argument validation before touching the file system", "skbeam/io/save_powder_output.py:_validate_input, _create_file_path")],
    ["complete directory contents before and after"],
)
add(
    "F03",
    "Readers give back stored data or an error, never invented or shortened data",
    "Reading a complete file returns exactly what it stores, however the operating system chunks or interrupts the "
    "reads. Reading a file torn at any byte, or hitting an I/O error at any read, ends in an error rather than an "
    "endless loop, padding, missing points or altered values, and leaves no file handle open. (A text file torn inside "
    "the digits of its very last number, in a format without an end mark, is a complete file with another last number.)",
    ["fault_sequences", "crash_points", "inputs"],
    "every truncation point of every supported file kind, every read fault, every chunking",
    "tests read back one complete file per format",
    ["skbeam/io/gsas_file_reader.py", "skbeam/io/binary.py", "skbeam/io/avizo_io.py", "skbeam/io/fit2d.py", "skbeam/io/net_cdf_io.py"],
    [("header counts and field widths", "skbeam/io/gsas_file_reader.py"), ("requested shape", "skbeam/io/binary.py:read_binary")],
    ["returned arrays or exception, open descriptors"],
)
# ---------------------------------------------------------------- containers
add(
    "K01",
    "Metadata and parameter dictionaries hold exactly what was stored, in any history",
    "A metadata dictionary (MD_dict) or parameter dictionary (RCParamDict) addressed by dotted paths holds, after any "
    "history, exactly the values assigned and not deleted or replaced since, under exactly those paths. An operation "
    "that is refused (such as using a stored value as a branch), a look-up, or an assignment that is interrupted, "
    "neither removes nor adds nor changes any other value, and assignments by different threads to different paths "
    "are not lost. A parameter dictionary prints exactly these values, each under its branches.",
    ["histories", "schedules", "fault_sequences"],
    "every sequence of assignments, look-ups, deletions, refused and interrupted operations by one or several threads",
    "tests do not cover these dictionaries at all",
    ["skbeam/core/utils.py"],
    [("dotted-path assignment, look-up, deletion, iteration", "skbeam/core/utils.py:MD_dict, RCParamDict")],
    ["items of the dictionaries, exceptions"],
)
# ---------------------------------------------------------------- not applicable
NA = {
    "N01": ("Line shapes and XRF physics evaluate their defining formulas",
            "Peak shapes, scattering profiles, escape and background estimates evaluate their published formulas for every parameter set.",
            ["skbeam/core/fitting/lineshapes.py", "skbeam/core/fitting/background.py", "skbeam/core/fitting/models.py"]),
    "N02": ("Region-of-interest builders label exactly the described pixels",
            "Rings, pies, boxes, bars and lines label exactly the pixels inside the described geometry, disjointly and in order.",
            ["skbeam/core/roi.py"]),
    "N03": ("Unit and geometry conversions are mutually inverse and correct",
            "Conversions between radius, angle, q, d-spacing and energy agree with their definitions and invert each other.",
            ["skbeam/core/utils.py", "skbeam/core/recip.py"]),
    "N04": ("Calibration and peak refinement recover the generating parameters",
            "Calibration from powder rings and peak refinement recover the parameters that generated clean data.",
            ["skbeam/core/calibration.py", "skbeam/core/feature.py"]),
    "N05": ("Spectrum alignment and integration conserve area",
            "Aligning, rebinning and integrating spectra conserve the integrated intensity over the selected range.",
            ["skbeam/core/spectroscopy.py"]),
    "N06": ("Element and powder-standard tables return the tabulated physical constants",
            "Element, emission line and calibration standard look-ups return the tabulated constants under every accepted spelling.",
            ["skbeam/core/constants"]),
    "N07": ("Image arithmetic and logic match their elementwise definitions",
            "Arithmetic, logical operations, smoothing and thresholding helpers match their elementwise definitions on every array.",
            ["skbeam/core/arithmetic.py", "skbeam/core/image.py", "skbeam/core/smoothing.py", "skbeam/core/stats.py"]),
}
for k, (t, s, f) in NA.items():
    add(k, t, s, ["inputs"], "every input of the functions named",
        "tests sample a few inputs", f, [("direct evaluation", f[0])], ["return values"])

if __name__ == "__main__":
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(here, "properties.jsonl"), "w") as fh:
        for p in P:
            fh.write(json.dumps(p) + "\n")
    print(len(P), "properties")
