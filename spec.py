#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json.  Run: python3 spec.py"""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
P = []


def prop(pid, title, statement, over, text, why, files, mech, state=(), observe=(), technique="", note="", level="model_checking"):
    P.append(dict(
        entry=dict(id=pid, title=title, statement=" ".join(statement.split()),
                   quantifier=dict(over=list(over), text=" ".join(text.split())),
                   why_tests_cant=" ".join(why.split()),
                   anchors=dict(files=list(files),
                                mechanism=[dict(name=a, where=b) for a, b in mech],
                                state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                                observe_at=list(observe), hook_needed=None)),
        technique=" ".join(technique.split()), note=" ".join(note.split()), level=level))


CORR = "skbeam/core/correlation.py"
prop("C01", "One-time correlation equals the multi-tau definition for every stream",
     """For every sequence of frames, region labelling, number of levels and even buffer length, the multi-tau one-time
     correlation equals, at every reported delay, the definition computed directly from all frames: the average over all
     available frame pairs of the product of region means' normalisation, with frames averaged pairwise from level to level.
     The delays are exactly the multi-tau delay list, bad (NaN) frames contribute nothing at any level, each region's result
     does not depend on other regions, and no input is modified.""",
     ["inputs", "configurations", "histories"],
     """all frame sequences, label arrays, level/buffer configurations, positions of bad frames, dtypes and containers""",
     """the tests compare one random stack with a stored number and check shapes; they reach one or two level/buffer
     configurations, never streams whose length stops mid-buffer, bad frames at higher levels, or interleaved labels""",
     [CORR, "skbeam/core/utils.py", "skbeam/core/roi.py"],
     [("ring buffers per level and cascade of pairwise averages", CORR + ": lazy_one_time, _one_time_process"),
      ("delay table", "skbeam/core/utils.py: multi_tau_lags"), ("region means normalisation", CORR + ": _one_time_process")],
     [("internal state", "buffers, past/future intensities, per-level image counts", CORR + ": _init_state_one_time")],
     ["lazy_one_time", "multi_tau_auto_corr", "auto_corr_scat_factor"],
     "explicit enumeration of frame histories and configurations on the real code, step-wise conformance to a reference model",
     "Exhaustive within the listed alphabets: every level/buffer configuration x stream length x label shape x bad-frame "
     "pattern of the stage tables; equality to a direct reference at every step. Trusts numpy arithmetic and the reference model.")
prop("C02", "Interrupting, resuming or interleaving correlation streams changes nothing",
     """Cutting a stream of frames at any points and continuing from the returned state, consuming the results lazily,
     abandoning a generator part way, or running several correlations interleaved, gives at every frame exactly the result of
     one uninterrupted run over the same frames. One frame is consumed per result, and results already handed out are not
     altered in a way that changes the final answer.""",
     ["histories", "schedules"],
     "all cut points, all interleavings of two streams, all subsets of observation points, for one-time and two-time correlation",
     "the tests resume once at one position; correctness at every cut point and interleaving is a quantifier over histories",
     [CORR],
     [("state object passed back in", CORR + ": lazy_one_time, lazy_two_time (internal_state)"),
      ("ring-buffer cursors", CORR + ": _one_time_process, _two_time_process")],
     [("internal_state", "buffers, cursors, image counter", CORR)],
     ["lazy_one_time", "lazy_two_time", "two_time_state_to_results"],
     "enumeration of all cut points, observation subsets and interleavings of the real generators; differential oracle",
     "Every cut position (pairs and triples of cuts), observation subset and interleaving of the drivers is executed; the "
     "uninterrupted run and the reference model are the oracles.")
prop("C03", "Two-time correlation matrices are symmetric and equal their definition",
     """For every frame sequence, labelling and configuration the two-time correlation of frames t1 and t2 is the product
     average over the region divided by the product of the two frames' region means, with the matrix symmetric and with the
     higher multi-tau levels filled in the same way from averaged frames. Collapsing a two-time matrix gives the average of
     each diagonal, and results for one region do not depend on the others.""",
     ["inputs", "configurations", "histories"],
     "all frame sequences, labels, level/buffer configurations, stream lengths and bad-frame positions within the enumerated alphabets",
     "tests check the diagonal of a constant or stored example; off-diagonal entries at higher levels and uneven lengths are not reached",
     [CORR],
     [("two-time accumulation", CORR + ": lazy_two_time, _two_time_process"), ("mirroring", CORR + ": two_time_state_to_results"),
      ("diagonal average", CORR + ": one_time_from_two_time")], [], ["two_time_corr", "lazy_two_time", "one_time_from_two_time"],
     "explicit enumeration of frame histories and configurations; conformance to a reference model of the full matrix",
     "Exhaustive over the stage tables (13 configurations x label shapes x lengths; all short sequences over a small alphabet).")
prop("C04", "Masked cross-correlation equals its definition for every mask and history",
     """For every mask, pair of images and choice of normalisation, the cross-correlation of each masked region equals the
     sum of products over the pixel pairs at each lag, normalised as requested, over the full range of lags of the region.
     The result for a pair of images does not depend on images correlated earlier with the same object, on the other regions,
     or on memory layout and dtype, and inputs are not modified.""",
     ["inputs", "configurations", "histories"],
     "all masks of small 1-D and 2-D shapes, all pairs from an image alphabet, all normalisations, all call sequences up to a depth",
     "the tests use one mask and one random image; FFT padding, region bounding boxes and history effects need all shapes",
     [CORR], [("zero-padded FFT per region", CORR + ": CrossCorrelator.__call__"), ("normalisation", CORR + ": CrossCorrelator")],
     [("per-region submasks and positions", "precomputed in the constructor", CORR + ": CrossCorrelator.__init__")],
     ["CrossCorrelator(...)(img1, img2)"],
     "exhaustive enumeration of masks, image pairs and call histories; direct-sum reference model",
     "All masks of the listed shapes and all call sequences to depth 3; one documented known finding (lag sign).")
prop("C05", "A histogram accumulator counts every in-range point exactly once",
     """After any sequence of fills and resets, each cell of a histogram (one or more dimensions) holds exactly the sum of
     the weights of the points whose coordinates lie in that half-open cell, points outside the range are ignored, and the
     total never gains or loses weight. The result does not depend on numeric types, scalar, list or array form, memory
     layout, how points are split between fills, or other accumulators, and reported edges and centers match the cells.""",
     ["inputs", "histories", "configurations"],
     "all points of an alphabet that contains every edge and its neighbours, all type combinations, all operation sequences up to a depth",
     "tests fill random numbers and compare with another library away from edges, with a few dtypes and contiguous arrays",
     ["skbeam/core/accumulators/histogram.pyx"],
     [("index computation", "skbeam/core/accumulators/histogram.pyx: find_indices"),
      ("fill dispatch", "skbeam/core/accumulators/histogram.pyx: Histogram.fill")],
     [("values", "weight per cell", "skbeam/core/accumulators/histogram.pyx: Histogram._values")],
     ["Histogram.fill", "Histogram.reset", "Histogram.values", "Histogram.edges", "Histogram.centers"],
     "enumeration of operation sequences and input alphabets on the freshly built extension; exact rational reference model",
     "Exhaustive over the alphabets and depths in the evidence; the Cython extension is rebuilt from the working tree.")
prop("C06", "Binned statistics describe exactly the points of each bin",
     """For every sample, binning, mask and statistic, each bin of a binned statistic (1-D, 2-D, N-D, radial, r-phi) holds
     that statistic of exactly the unmasked values whose coordinates fall in the bin, with the last bin closed on the right.
     Calling one object repeatedly with different values or statistics gives the same as a fresh object, the reported edges and
     centers describe the bins used, unknown statistics are refused, and inputs are never modified.""",
     ["inputs", "configurations", "histories"],
     "all small samples over an alphabet with every edge, all bin specifications, masks, statistics and call sequences up to a depth",
     "the tests compare with another library on random data with few masks; edges, unequal dimensions and reuse histories are not reached",
     ["skbeam/core/accumulators/binned_statistic.py"],
     [("bin assignment computed once", "skbeam/core/accumulators/binned_statistic.py: BinnedStatisticDD.__init__"),
      ("statistic", "skbeam/core/accumulators/binned_statistic.py: BinnedStatisticDD.__call__")],
     [("xy/argsort index", "bin number of each point", "skbeam/core/accumulators/binned_statistic.py")],
     ["BinnedStatistic1D", "BinnedStatistic2D", "BinnedStatisticDD", "RadialBinnedStatistic", "RPhiBinnedStatistic"],
     "exhaustive enumeration of samples, bins, masks and call histories; per-bin reference model",
     "Exhaustive over the stage tables; float comparisons at 1e-9.")
prop("C07", "Gridding onto voxels conserves every point under every thread schedule",
     """For every set of points, intensities, bounds, grid size and mask, each voxel of the gridded volume reports exactly the
     count, mean and standard error of the unmasked, non-NaN points lying in it (lower bound included, upper excluded), empty
     voxels are marked as such, and with default bounds no point is lost. The result is the same for any number of threads and
     any interleaving of them, and running out of memory ends in an error, never in a hang, leak or wrong volume.""",
     ["schedules", "fault_sequences", "inputs", "configurations"],
     """all interleavings of the gridding threads up to a preemption bound, each single allocation failure, all point/mask
     combinations of the alphabets, thread counts 1-16 and a build without threads""",
     """a test observes one schedule of one grid with points in voxel centres and float64 coordinates""",
     ["src/ctrans.c", "skbeam/core/utils.py"],
     [("per-thread grids merged after the parallel region", "src/ctrans.c: c_grid3d"),
      ("default bounds and mask handling", "skbeam/core/utils.py: grid3d")],
     [("thread-local grids", "sum, sum of squares and count per thread", "src/ctrans.c: gridderThreadData")],
     ["grid3d"],
     """stateless model checking of the compiled kernel: instrumented build linked with a controlled OpenMP runtime, all
     interleavings up to a preemption bound; plus exhaustive input enumeration against an exact reference""",
     """All schedules with <=2 preemptions for 2 threads (3 thorough) and <=1 for 3 threads (2 thorough) at single-access
     granularity under sequential consistency; every allocation failure. Trusts gcc's instrumentation and the small runtime.""")
prop("C08", "Every detector pixel maps to the geometrically correct scattering vector",
     """For every set of instrument angles, detector geometry, wavelength and orientation matrix, each pixel of each image is
     assigned the scattering vector of the six-circle geometry in the requested frame (angles in degrees, pixels in row-major
     order, images in order), lengths are the same in all Cartesian frames, and results do not depend on how many images are
     converted together, on thread count or on thread interleaving. The grazing-incidence conversion gives angles and
     components of the scattering vector by its published formulas for every pixel.""",
     ["inputs", "configurations", "schedules"],
     "all combinations of an alphabet of angles, detector sizes, pixel sizes, centres, frames and orientation matrices; all schedules up to a preemption bound",
     "tests compare one geometry at three pixels; non-square detectors, off-centre beams and other frames are not compared with values",
     ["src/ctrans.c", "skbeam/core/recip.py"],
     [("per-image parallel loop", "src/ctrans.c: processImages"), ("angles to Q", "src/ctrans.c: calcQTheta, calcQPhiFromQTheta"),
      ("frame selection", "skbeam/core/recip.py: process_to_q"), ("GISAXS", "skbeam/core/recip.py: gisaxs")],
     [], ["process_to_q", "hkl_to_q", "gisaxs"],
     "controlled-scheduler exploration of the compiled kernel and exhaustive enumeration of geometries against a reference",
     "All schedules up to the preemption bound for 2-4 images; formula reference per pixel at 1e-9.")
exec(open(os.path.join(HERE, "spec_more.py")).read()) if os.path.exists(os.path.join(HERE, "spec_more.py")) else None

NA = []


def main():
    import jsonschema  # noqa
    have = [p for p in P if os.path.exists(os.path.join(HERE, "checks", p["entry"]["id"].lower() + ".py"))]
    ids = [p["entry"]["id"] for p in have]
    assert len(ids) == len(set(ids))
    ps = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in have:
            jsonschema.validate(p["entry"], ps)
            f.write(json.dumps(p["entry"]) + "\n")
    m = dict(version=1, setup_cmd="bash setup.sh",
             checks=[dict(property=p["entry"]["id"], quick_cmd="bash run.sh %s quick" % p["entry"]["id"],
                          thorough_cmd="bash run.sh %s thorough" % p["entry"]["id"],
                          technique=p["technique"], level=p["level"], level_note=p["note"]) for p in have],
             not_applicable=NA)
    jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    for p in have:
        n = p["entry"]["statement"].count(". ") + 1
        if n > 3:
            print("warning: %s has %d sentences" % (p["entry"]["id"], n))
    print(len(have), "properties")


if __name__ == "__main__":
    main()
