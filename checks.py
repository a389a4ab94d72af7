"""What each check builds and runs.  See DESIGN.md for what is specified, explored and assumed."""
C = "aslam_cv_common/src/"

MC_ASSUME = [
    "sequential consistency between the explored scheduling points; every data race is reported as a violation of its own, "
    "so that this is sound for race-free code (C++11 SC-DRF)",
    "the bound on threads, operations and preemptions stated in coverage.bounds",
    "libstdc++ and pthreads behave as specified (their scheduling points are modelled by the checker)",
]
SEQ_ASSUME = ["the bound on operations, sizes and values stated in coverage.bounds",
              "the reference model in the harness states the property"]

CHECKS = {}


def mc(cid, harness, repo, bounds, **kw):
    CHECKS[cid] = dict(engine="mcx", harness=["mc/" + harness], repo=[C + r if "/src/" not in r else r for r in repo],
                       bounds=bounds, assumptions=MC_ASSUME + kw.pop("assume", []), **kw)


def seq(cid, harness, repo, bounds, **kw):
    CHECKS[cid] = dict(engine="seqx", harness=["seq/" + harness], repo=[C + r if "/src/" not in r else r for r in repo],
                       bounds=bounds, assumptions=SEQ_ASSUME + kw.pop("assume", []), **kw)


POOL = ("1-3 workers, up to 3 tasks over every assignment to two exclusivity groups or none, up to 2 enqueuing threads; "
        "preemption bounds per scenario in the table (-1 = every interleaving)")
mc("C01", "C01_pool.cc", ["thread-pool.cc"], POOL)
mc("C02", "C02_pool.cc", ["thread-pool.cc"], POOL)
mc("C03", "C03_pool.cc", ["thread-pool.cc"], POOL)
RW = ("2-4 threads, every tuple of up to 3 operations over {read, write, upgrade, scoped variants} per thread; preemption "
      "bounds per scenario in the table (-1 = every interleaving)")
mc("C04", "C04_rwlock.cc", ["reader-writer-lock.cc", "reader-first-reader-writer-lock.cc"], RW)
mc("C05", "C05_rwlock.cc", ["reader-writer-lock.cc", "reader-first-reader-writer-lock.cc"], RW)
mc("C06", "C06_channels.cc", ["channel.cc", "channel-serialization.cc"],
   "2-3 threads, every tuple of up to 2 channel-group operations per thread", libs=["-lopencv_core"])
mc("C07", "C07_registry.cc", ["statistics.cc", "timer.cc"],
   "2-3 threads, every tuple of up to 2 registry operations per thread, both registries")
mc("C08", "C08_ids.cc", ["hash-id.cc", "internal/unique-id.cc"],
   "2-3 threads, up to 2 identifiers each, every combination of a frozen, advancing or receding clock", proto=True,
   libs=["-lprotobuf"])

seq("S01", "S01_ids.cc", ["hash-id.cc", "internal/unique-id.cc"],
    "all values with one non-zero byte, pairs of non-zero bytes from boundary values, all 32-character strings that differ from a "
    "valid one in one character, all lengths up to 69, all pairs and triples of 64 boundary values", proto=True, libs=["-lprotobuf"])
seq("S02", "S02_time.cc", [], "about 1400 boundary values (powers of 2 and 10 and neighbours, both signs) and 16000 values around digit changes")
seq("S03", "S03_stl.cc", [], "all index subsets of up to 8 elements in all orders, all vectors over 4 keys up to length 6-7")
seq("S04", "S04_grid.cc", [],
    "all sequences of 4 operations over 7 kinds, 3-5 positions and 2-3 weights, 4 coordinate/weight type combinations; all border coordinates "
    "of 96 image/cell size combinations; all placements of up to 2 points for masks", libs=["-lopencv_imgproc", "-lopencv_core"],
    flags=["-include", "opencv2/imgproc/imgproc_c.h"])
seq("S05", "S05_channel_bytes.cc", ["channel.cc", "channel-serialization.cc"],
    "all matrices up to 3x3 of 7 element types and 7 shapes, lists of up to 2 (thorough: 3) matrices, images up to 3x3x4; every prefix, every byte replaced by "
    "16 (thorough: 256) values; headers with every combination of 16x16x9x6 boundary values", libs=["-lopencv_core"], flags=["-fno-sanitize=nonnull-attribute"])
seq("S07", "S07_hamming.cc", [],
    "all descriptor sizes up to 600 (thorough: 1200) bytes with 6 dense patterns, every single bit up to 80 bytes, all byte pairs, all lists of up to "
    "5 descriptors over 4 patterns for the statistics")
seq("S08", "S08_descriptor_ref.cc", [],
    "all sequences of 5 (thorough: 7) operations over 6 kinds of construction and 13 operations on 3 references and 2 foreign buffers",
    flags=["-fno-sanitize=nonnull-attribute"])
seq("S06", "S06_channel_groups.cc", ["channel.cc", "channel-serialization.cc"],
    "all sequences of 6 (thorough: 8) operations on two groups over 2 channel kinds x 3 values each; all pairs of 5 values of 4 kinds; every single "
    "byte of images up to 3x3 of 8 types", libs=["-lopencv_core"])
seq("S09", "S09_statistics.cc", ["statistics.cc", "timer.cc"],
    "all sequences of 7 (thorough: 8) samples over 5 values for 7 accumulator types; all sequences of 4 (thorough: 5) operations on two tags or two timers "
    "with a controlled clock", libs=["-lyaml-cpp"])
seq("S10", "S10_yaml.cc", ["sensor.cc", "hash-id.cc", "internal/unique-id.cc"],
    "all matrices up to 5x5 of 13 types with 10 patterns of values; all written shapes of up to 4 entries of up to 3 (thorough: 4) elements against all declared "
    "sizes from -1 to 3; every prefix and single byte replacement of one text; 35x35 sensor texts", proto=True, libs=["-lprotobuf", "-lyaml-cpp"])

CAM = "aslam_cv_cameras/src/"
CAMS = [CAM + f for f in ("camera.cc", "camera-pinhole.cc", "camera-unified-projection.cc", "camera-3d-lidar.cc", "camera-factory.cc",
                          "ncamera.cc", "random-camera-generator.cc", "distortion.cc", "distortion-equidistant.cc",
                          "distortion-fisheye.cc", "distortion-radtan.cc")]
FRAMES = ["aslam_cv_frames/src/visual-frame.cc", "aslam_cv_frames/src/visual-nframe.cc"]
PIPE = ["aslam_cv_pipeline/src/" + f for f in ("undistorter.cc", "visual-pipeline.cc", "visual-pipeline-null.cc", "visual-npipeline.cc")]
BASE = ["sensor.cc", "hash-id.cc", "internal/unique-id.cc", "channel.cc", "channel-serialization.cc", "thread-pool.cc", "covariance-helpers.cc"]
NP = "2-3 workers and up to 3 threads of the user, 2 cameras, up to 6 images; preemption bounds per scenario in the table (-1 = every interleaving)"
mc("C09", "C09_npipeline.cc", BASE + CAMS + FRAMES + PIPE, NP, kindr=True, proto=True, libs=["-lprotobuf", "-lyaml-cpp", "-lopencv_core", "-lgflags"],
   flags=["-include", "opencv2/imgproc/imgproc_c.h"])
mc("C10", "C10_npipeline.cc", BASE + CAMS + FRAMES + PIPE, NP, kindr=True, proto=True, libs=["-lprotobuf", "-lyaml-cpp", "-lopencv_core", "-lgflags"],
   flags=["-include", "opencv2/imgproc/imgproc_c.h"])
CAMLIBS = ["-lprotobuf", "-lyaml-cpp", "-lopencv_imgproc", "-lopencv_core", "-lgflags"]
IMGPROC = ["-include", "opencv2/imgproc/imgproc_c.h"]
seq("S11", "S11_npipeline.cc", BASE + CAMS + FRAMES + PIPE,
    "all sequences of 4 (thorough: 5) operations over 2 cameras x 5 times; all model states within 6-8 (thorough: 8-10) operations for rigs of 1-3 cameras, 3-5 times, queues of 1-2",
    kindr=True, proto=True, libs=CAMLIBS, flags=IMGPROC + ["-fno-sanitize=null"])
seq("S12", "S12_frame.cc", BASE + CAMS + FRAMES,
    "1-3 blocks of 0-2 (thorough: 3) keypoints with every channel present or absent per block; all model states within 3 (thorough: 4) operations; every pair of member values",
    kindr=True, proto=True, libs=CAMLIBS, flags=IMGPROC + ["-fno-sanitize=null,nonnull-attribute"])
seq("S13", "S13_rig.cc", BASE + CAMS,
    "all rigs within 3 (thorough: 4) operations from 1-3 cameras out of 5 kinds; 16 damages of a written rig",
    kindr=True, proto=True, libs=CAMLIBS, flags=IMGPROC + ["-fno-sanitize=null,nonnull-attribute"])
seq("S14", "S14_nframe.cc", BASE + CAMS + FRAMES,
    "all nframes within 5 (thorough: 6) operations for 1-2 (thorough: 3) cameras; all sequences of 5 (6) observations of a track",
    kindr=True, proto=True, libs=CAMLIBS, flags=IMGPROC + ["-fno-sanitize=null,nonnull-attribute"])
TRK = "aslam_cv_tracker/src/"
seq("S15", "S15_tracks.cc", BASE + CAMS + FRAMES + [TRK + "track-manager.cc", TRK + "tracking-helpers.cc"],
    "all sequences of 2-3 (thorough: 3-4) lists of up to 3 matches between 2-3 frames of up to 3 keypoints; all sequences of 2 (3) insertions of up to 2 keypoints",
    kindr=True, proto=True, libs=CAMLIBS, flags=IMGPROC + ["-fno-sanitize=null,nonnull-attribute"])
mc("C11", "C11_tracks.cc", BASE + CAMS + FRAMES + [TRK + "track-manager.cc"],
   "2-3 trackers, up to 2 new tracks each; preemption bounds per scenario in the table (-1 = every interleaving)", kindr=True, proto=True,
   libs=["-lprotobuf", "-lyaml-cpp", "-lopencv_core", "-lgflags"], flags=["-include", "opencv2/imgproc/imgproc_c.h"])
MAT = "aslam_cv_matcher/src/"
seq("S16", "S16_matcher.cc", BASE + CAMS + FRAMES + ["statistics.cc", "timer.cc", MAT + "gyro-two-frame-matcher.cc", MAT + "match-helpers.cc"],
    "up to 3x3 (thorough: 3x4) keypoints with 5 (8) descriptors around the thresholds; every place of images of 8 and 24 rows; predictions of up to 3 keypoints",
    kindr=True, proto=True, libs=CAMLIBS + ["-Wl,-z,muldefs"], flags=IMGPROC + ["-fno-sanitize=null,nonnull-attribute"])
seq("S17", "S17_projection.cc", BASE + CAMS,
    "10 cameras x 11 distortions x 8x8x8 (thorough: 15x15x14) points with 2-3 external parameter sets; 14x14 points per distortion; 7x7 (16x16) keypoints; "
    "all masks of 4 kinds x 17x17 coordinates around the borders of 12 image sizes", kindr=True, proto=True, libs=CAMLIBS, flags=IMGPROC + ["-fno-sanitize=null,nonnull-attribute"])
seq("S18", "S18_camera.cc", BASE + CAMS,
    "all cameras within 3 (thorough: 4) operations from 9 combinations of camera and distortion; all pairs up to two changes apart; 30 damages of a written camera",
    kindr=True, proto=True, libs=CAMLIBS, flags=IMGPROC + ["-fno-sanitize=null,nonnull-attribute"])
CAL = "aslam_cv_calibration/src/"
seq("S19", "S19_calibration.cc", BASE + CAMS + [CAL + f for f in ("target-base.cc", "target-aprilgrid.cc", "focallength-initializers.cc")],
    "april grids of up to 4x4 tags; every list of up to 4 (thorough: 5) corners; every list of up to 3 detections on 5 targets; every mix of parameters; all circles of a "
    "lattice; up to 3 views out of 5-6 for 6-18 cameras", kindr=True, proto=True, libs=CAMLIBS + ["-lopencv_calib3d"],
    flags=IMGPROC + ["-include", "opencv2/highgui/highgui_c.h", "-fno-sanitize=null,nonnull-attribute"])
seq("S20", "S20_undistort.cc", BASE + CAMS + FRAMES + ["aslam_cv_pipeline/src/" + f for f in
    ("undistorter.cc", "undistorter-mapped.cc", "visual-pipeline.cc", "visual-pipeline-null.cc", "test/convert-maps-legacy.cc")],
    "every undistorter for 6 cameras x 5 distortions x 3 sizes x 3 alphas x 5 scales x up to 3 ways and every pixel of its maps; all pairs of input and output cameras; "
    "5 interpolations x 4 image types; all sequences of 3 (thorough: 4) images through 5 kinds of pipelines; all conversions of maps",
    kindr=True, proto=True, libs=CAMLIBS + ["-lopencv_calib3d"],
    flags=IMGPROC + ["-include", "opencv2/core/core_c.h", "-fno-sanitize=null,nonnull-attribute"])
seq("S21", "S21_triangulation.cc", BASE + CAMS + FRAMES + ["aslam_cv_triangulation/src/triangulation.cc"],
    "8 points from every 2-3 (thorough: 2-4) of 8 poses with 3 mounts, with and without noise; rays down to 1e-8 from the image plane; tracks of 2-3 (4) observations through 3 rigs",
    kindr=True, proto=True, libs=CAMLIBS, flags=IMGPROC + ["-fno-sanitize=null,nonnull-attribute"])
seq("S22", "S22_gyrotracker.cc", BASE + CAMS + FRAMES + ["statistics.cc", "timer.cc", MAT + "gyro-two-frame-matcher.cc", MAT + "match-helpers.cc",
    TRK + "tracking-helpers.cc", TRK + "track-manager.cc", TRK + "feature-tracker-gyro.cc"],
    "every history of 5 (thorough: 7) calls for one point and 3 (4) for two; 4 calls with 3 (4) points competing for places; every outcome of the optical flow for 3 points",
    kindr=True, proto=True, libs=CAMLIBS + ["-lopencv_features2d", "-Wl,-z,muldefs"], flags=IMGPROC + ["-fno-sanitize=null,nonnull-attribute"])
seq("S23", "S23_helpers.cc", ["covariance-helpers.cc"],
    "images of 7 depths, 1-3 (thorough: 1-4) channels, up to 3x4 (3x5) pixels that differ in any one value; matrices of up to 4 elements of 5 values; 64 quarter turns; polynomials "
    "of degree up to 3 (5) in 3 variables; every sequence of 3 allocations",
    kindr=True, libs=["-lopencv_core", "-lgtest"], flags=["-fno-sanitize=null,nonnull-attribute"])
seq("S24", "S24_drawing.cc", BASE + CAMS + FRAMES + ["aslam_cv_visualization/src/basic-visualization.cc"],
    "all sets of up to 3 (thorough: all lists of 3) keypoints of two types out of 9 places; all lists of up to 2 (3) matches between up to 3 keypoints, indices -1 to 3; 4 kinds of output images",
    kindr=True, proto=True, libs=CAMLIBS, flags=IMGPROC + ["-include", "opencv2/imgproc/imgproc_c.h", "-fno-sanitize=null,nonnull-attribute"])
DET = "aslam_cv_detector/"
seq("S25", "S25_lines.cc", [DET + "src/line-segment-detector.cc", DET + "src/lsd/lsd-opencv.cc"],
    "an edge at every 15 (thorough: 5) degrees x offsets, contrasts, image sizes; 945 rectangles x minimum lengths; all 512 patterns of 3x3 cells x 2 sizes x 2 levels; all sequences of 4 (5) images "
    "through 2 detectors; lists of up to 3 (4) of 10 lines; 6000 (390000) pairs of lines",
    libs=["-lopencv_highgui", "-lopencv_imgproc", "-lopencv_core"], flags=["-include", "opencv2/imgproc/imgproc_c.h"])
GEO = "aslam_cv_geometric_vision/src/"
seq("S26", "S26_geometric.cc", BASE + CAMS + FRAMES + [MAT + "match-helpers.cc", GEO + "match-outlier-rejection-twopt.cc", GEO + "pnp-pose-estimator.cc"],
    "every pair of inlier sets for 0, 1, 5, 6 (thorough: 7) matches; every inlier set for up to 4 (5) measurements of a camera and 3 (4) of a rig with camera indices -1 to 2; 3D points with every "
    "choice of up to 2 outliers among up to 9 (10)",
    kindr=True, proto=True, libs=CAMLIBS, flags=IMGPROC + ["-fno-sanitize=null,nonnull-attribute"],
    assume=["opengv is a stand-in whose answers are chosen by the explorer: what its solvers do is not checked"])
seq("S27", "S27_features.cc", BASE + CAMS + FRAMES + ["aslam_cv_pipeline/src/" + f for f in
    ("undistorter.cc", "undistorter-mapped.cc", "visual-pipeline.cc", "visual-pipeline-brisk.cc", "visual-pipeline-freak.cc")],
    "all sequences of 2 (thorough: 3) images with up to 3 keypoints, every subset of which the extractor keeps, for both pipelines with and without undistortion; "
    "every parameter set twice (three times)",
    kindr=True, proto=True, libs=CAMLIBS + ["-lopencv_calib3d", "-lopencv_features2d"],
    flags=IMGPROC + ["-fno-sanitize=null,nonnull-attribute"],
    assume=["brisk and opencv_xfeatures2d are stand-ins whose answers are chosen by the explorer: what they detect is not checked"])
KZ = DET + "src/kaze/"
seq("S28", "S28_kaze.cc", [KZ + f for f in ("fed.cpp", "nldiffusion_functions.cpp", "KAZE.cpp", "utils.cpp")],
    "every number of FED steps up to 300 (thorough: 1200), 200 (800) process times, 100600 numbers for primality; every peak x every conductivity of images of 2-5 (6) pixels a side; "
    "all 3x3 images of 3 levels; every peak x 6 (16) scales; both schemes x 4 diffusivities x 7 pictures x 4 sizes x 1-2 (3) octaves x 1-3 (4) sublevels; every pair of peaks in 4 levels; "
    "625 (6561) sub-pixel offsets x 6 levels; 12 descriptors x 3 fields x 8 angles; 72 (360) directions; all sequences of 2 (3) of 7 pictures through one object",
    libs=["-lopencv_calib3d", "-lopencv_features2d", "-lopencv_highgui", "-lopencv_imgcodecs", "-lopencv_imgproc", "-lopencv_core"], flags=["-Wno-format"])
