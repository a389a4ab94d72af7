"""The properties (written to properties.jsonl by gen.py)."""
PROPS = []
NOT_APPLICABLE = []
NOTES = ("Each check rebuilds what it needs from /repo's working tree into /verif/build/<id> and explores it exhaustively within the "
         "bounds of its evidence file. 'python3 run.py replay <id> <scenario> <choices>' re-executes one path.")
COMMON = "aslam_cv_common/"


def P(i, title, statement, over, text, why, files, mechanism, state=(), observe=(), hook=None):
    PROPS.append({
        "id": i, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
            "mechanism": [dict(zip(("name", "where"), m)) for m in mechanism],
            "observe_at": list(observe),
            "hook_needed": hook,
        },
    })


TPH = COMMON + "include/aslam/common/thread-pool.h"
TPC = COMMON + "src/thread-pool.cc"
P("C01", "Thread pool: every accepted task runs exactly once and its result arrives",
  "Every task that enqueue()/enqueueOrdered() accepts (returns a valid future for) is executed exactly once, by at most as many "
  "threads at a time as the pool has, and its future delivers that task's own result or exception; this also holds for tasks "
  "accepted while stop() or the destructor runs and for tasks enqueued from several threads or from inside a task. "
  "A task that is rejected (invalid future, which is what any call made after stop() returns) is never executed. "
  "When the destructor, or waitForEmptyQueue() for the tasks enqueued before it, returns, those tasks and all they enqueued themselves "
  "have finished.",
  ["schedules", "programs"],
  "all interleavings of enqueuers, workers, stop(), waiters and the destructor; all group assignments of the tasks",
  "the tests run one lucky schedule of a few tasks; losing or duplicating a task needs a preemption inside the pool's critical "
  "sections or between its checks",
  [TPH, TPC],
  [("task queue guarded by one mutex, accepted only while not stopped", TPH + " enqueueOrdered"),
   ("workers drain the queue before they leave", TPC + " run"), ("destructor stops and joins", TPC + " ~ThreadPool")],
  [("task queue", "accepted tasks that have not started", TPH), ("active counter", "workers executing a task", TPH)],
  ["task bodies", "returned futures", "return of waitForEmptyQueue() and of the destructor"])
P("C02", "Thread pool: tasks of one exclusivity group run one at a time and in order",
  "Two tasks enqueued with the same exclusivity group id never execute at the same time, whatever else the pool executes, and what "
  "one of them writes is visible to the next. "
  "Tasks of one group enqueued one after another start in that order, each only after its predecessor finished (normally or by an "
  "exception), and on a pool with one worker all tasks do. "
  "Every id other than kGroupdIdNonExclusiveTask is a group of its own.",
  ["schedules", "programs"],
  "all interleavings of the workers and enqueuers, all assignments of groups to the tasks",
  "the ordering test samples random sleeps; an overlap or reordering needs a worker to be preempted between picking a task and "
  "updating the group's guard",
  [TPH, TPC],
  [("a guard per group, set and cleared with the queue's mutex held", TPC + " run"),
   ("the queue is searched from its front", TPC + " run")],
  [("group guards", "whether a task of the group is executing", TPH)],
  ["start and end of the task bodies"])
P("C03", "Thread pool: no task, waiter or shutdown ever hangs, no worker idles beside work",
  "Whenever a task that may run is queued (not exclusive, or of a group that is not executing) and a worker is idle, a worker "
  "executes it without any further call being necessary, also when other threads wait in waitForEmptyQueue(), when a group is "
  "blocked, when a task threw and after stop(). "
  "Every waitForEmptyQueue(), every future and the destructor return once the tasks they depend on have finished, for any number of "
  "waiters; when the pool is idle it reports no active thread.",
  ["schedules", "programs"],
  "all interleavings, including every choice of which waiter a notification wakes and spurious wake-ups",
  "a lost wake-up hangs in one schedule out of thousands and tests only see the others",
  [TPH, TPC],
  [("condition variable signalled on every queue change", TPH + " enqueueOrdered, " + TPC + " run"),
   ("active thread count", TPC + " run")],
  [("active counter", "workers executing a task", TPH), ("stop flag", "no more tasks are accepted", TPH)],
  ["termination of all threads", "numActiveThreads()"])

RWH = COMMON + "include/aslam/common/reader-writer-lock.h"
RWC = COMMON + "src/reader-writer-lock.cc"
RFH = COMMON + "include/aslam/common/reader-first-reader-writer-lock.h"
RFC = COMMON + "src/reader-first-reader-writer-lock.cc"
P("C04", "Reader/writer locks: writers are exclusive and upgrades are atomic",
  "Under both reader/writer locks a thread in a write section is alone (no other reader or writer), readers may share, and everything "
  "written under the write lock is seen by the sections that follow. "
  "A successful upgrade from read to write admits no other write between the thread's read section and its write section; a failed "
  "upgrade has given up the read lock, happens only if another thread upgrades at the same time, and of several readers upgrading at "
  "once exactly one succeeds. "
  "The scoped lock objects hold exactly one lock, also after being moved from.",
  ["schedules", "programs"],
  "all interleavings of 2-4 threads and all short programs over read, write, upgrade and the scoped variants, for both locks",
  "the tests sleep to provoke one overlap each; the admission decisions depend on which thread is woken and when",
  [RWH, RWC, RFH, RFC],
  [("reader, writer and pending-writer counts under one mutex", RWC), ("upgrade flag", RWC + " upgradeToWriteLock")],
  [("num_readers/num_writers/num_pending_writers", "who holds and who waits", RWH)],
  ["return of acquireReadLock/acquireWriteLock/upgradeToWriteLock"])
P("C05", "Reader/writer locks: no waiter is forgotten, in-use is reported correctly",
  "No thread waits forever: once the holders of the lock have released it every waiting reader, writer and upgrading thread is "
  "eventually admitted, in every schedule. "
  "A waiting writer or upgrade keeps further readers out under ReaderWriterMutex, whereas ReaderFirstReaderWriterMutex admits readers "
  "whenever no writer holds the lock. "
  "isInUse() is true while any thread holds or waits for the lock and false when nobody does.",
  ["schedules", "programs"],
  "all interleavings of holders, up to three waiters of each kind and a polling thread, with spurious wake-ups",
  "missing a notification or a waiter count shows only for one order of arrival and wake-up; tests poll with sleeps",
  [RWH, RWC, RFH, RFC],
  [("condition variables for readers and writers", RWC + " release*Lock"), ("isInUse() reads the counts under the mutex", RWH)],
  [("num_pending_writers", "threads waiting to write", RWH)],
  ["termination of all threads", "isInUse()"])
CHH = COMMON + "include/aslam/common/channel.h"
P("C06", "Channel groups are safe to share between threads",
  "Adding, removing, looking up, (de)serializing, cloning, assigning and comparing the channels of a group are atomic with respect to "
  "each other when several threads share the group: the results are those of some sequential order of the operations. "
  "No combination of these operations, including assigning or comparing two groups in both directions at once or a group with itself, "
  "deadlocks or races.",
  ["schedules", "programs"],
  "all interleavings of 2-3 threads and all pairs of short programs over the channel operations on one or two groups",
  "the channel tests use a single thread",
  [CHH, COMMON + "src/channel.cc", COMMON + "include/aslam/common/channel-declaration.h"],
  [("a mutex per group", CHH), ("both groups locked for assignment and comparison", CHH + ", " + COMMON + "src/channel.cc")],
  [("channels_", "named channels of the group", CHH)],
  ["results of the channel functions"])
P("C07", "Statistics and timing registries are atomic and lose no sample",
  "With any number of threads, equal tags always map to one handle and different tags to different handles (also across Reset(), "
  "which forgets tags but keeps handed out handles usable), and every sample added is counted exactly once under its own tag. "
  "Handle creation, sampling, queries, Reset(), Print() and WriteToYamlFile() do not race or deadlock, and query results correspond "
  "to some sequential order of the calls.",
  ["schedules", "programs"],
  "all interleavings of 2-3 threads over all short programs of registry operations, for Statistics and Timing",
  "there is no test of the registries; losing a sample needs two threads to interleave inside a call",
  [COMMON + "src/statistics.cc", COMMON + "src/timer.cc", COMMON + "include/aslam/common/statistics/statistics.h",
   COMMON + "include/aslam/common/timer.h"],
  [("one mutex per registry around every access", COMMON + "src/statistics.cc")],
  [("tag map", "tag to handle", COMMON + "include/aslam/common/statistics/statistics.h")],
  ["results of the static query functions"])
P("C08", "Generated identifiers are valid and never repeat within a process",
  "Identifiers generated in one process by generateId()/createRandomId(), of any id types and in any number of threads, are valid and "
  "pairwise distinct, whether the clock advances, stands still or goes backward between the calls. "
  "The same holds for HashId::random()/randomize() among themselves, and generating identifiers in several threads does not race.",
  ["schedules", "inputs"],
  "all interleavings of 2-3 generating threads and all combinations of clock readings",
  "the tests compare two identifiers generated one after another by one thread",
  [COMMON + "src/internal/unique-id.cc", COMMON + "include/aslam/common/unique-id.h", COMMON + "include/aslam/common/hash-id.h"],
  [("atomic counter in half of the identifier", COMMON + "src/internal/unique-id.cc"),
   ("one generator under a mutex", COMMON + "include/aslam/common/hash-id.h randomize")],
  [("counter", "number of identifiers generated", COMMON + "src/internal/unique-id.cc")],
  ["generated identifiers"])

# ---------------------------------------------------------------- sequential checks
INP = ["inputs"]
SQ = ["inputs", "operation sequences"]
UID = COMMON + "include/aslam/common/unique-id.h"
HID = COMMON + "include/aslam/common/hash-id.h"
P("S01", "Identifier conversions are lossless, order and hash agree with equality",
  "A HashId or typed identifier keeps its 128 bits through hexadecimal strings (either case), pairs of 64-bit words, protobuf messages, "
  "copies and conversions between id types; it is valid exactly when a bit is set; generateIdFromInt() maps different integers to "
  "different ids. "
  "A string that is not 32 hexadecimal digits and a malformed protobuf id are refused and leave the identifier unchanged. "
  "< is a strict total order consistent with == and !=, equal ids have equal hashes, and hash and ordered containers keyed by ids "
  "find exactly the ids put in.",
  INP, "all 128-bit values, all strings, all pairs and triples of values",
  "the tests use a few random ids, which never contain the zero bytes, leading zeros and equal halves at which such code goes wrong",
  [HID, UID, COMMON + "src/hash-id.cc"],
  [("byte-wise hexadecimal conversion", HID + " hexString/fromHexString"), ("word-wise comparison and hash", HID),
   ("protobuf conversion", UID + " serialize/deserialize")],
  [("val_", "the 128 bits", HID)], ["conversion functions", "std::unordered_map/std::map keyed by ids"])
TIM = COMMON + "include/aslam/common/time.h"
P("S02", "Time conversions are exact, monotone and readable back",
  "Compile-time unit conversions multiply exactly for every value whose result fits in 64 bits. "
  "The run-time conversions between nanoseconds and floating point seconds, milliseconds and microseconds are correctly rounded, "
  "monotone, invert each other to within the precision of a double and are exact for whole and half units. "
  "timeNanosecondsToString() of any value, positive or negative, denotes exactly that value with nine digits after the seconds. "
  "A time is invalid exactly if it is the magic invalid value, and the current time is wall clock time.",
  INP, "all 64-bit nanosecond counts",
  "the tests convert a handful of constants; digit padding, signs, overflow and rounding differ elsewhere",
  [TIM], [("unit constants and literal multiplication", TIM), ("digit padding", TIM + " timeNanosecondsToString")],
  [], ["return values"])
STL = COMMON + "include/aslam/common/stl-helpers.h"
STI = COMMON + "include/aslam/common/stl-helpers-inl.h"
P("S03", "Container helpers remove, keep and draw exactly the right elements",
  "Erasing a set of indices, given in any order, from a vector (plain or aligned), an Eigen matrix by rows or columns or a dynamic "
  "matrix through the adapter leaves exactly the other elements in their order, for any number of elements including none and all; "
  "an index out of range or a wrong expected size is refused. "
  "keepOnlyNSortedElements() keeps N best elements in order, returns their number and hands exactly the others to the action. "
  "drawNRandomElements() draws the requested number of distinct elements, deterministically for a fixed seed; mean, median, standard "
  "deviation and nested counts have their mathematical value for every non-empty input and refuse an empty one.",
  INP, "all containers, all index subsets in all orders, all N",
  "the tests erase one fixed list of indices from one container; the block moves behind it differ for first, last, adjacent, all and no "
  "indices",
  [STL, STI], [("block-wise erase", STI + " eraseIndicesFromContainer"), ("swap and sort", STL + " keepOnlyNSortedElements")],
  [], ["contents of the containers afterwards"])
OGI = COMMON + "include/aslam/common/occupancy-grid-inl.h"
P("S04", "Occupancy grid holds exactly the points its replacement rules allow",
  "After any sequence of operations the grid contains exactly the points its rules prescribe, each in the cell of its coordinates, and "
  "getNumPoints(), getAllPointsInGrid(), getGridCell() and getFullestGridCell() agree with each other. "
  "The rules: unconditional adding always adds; adding to a full cell replaces one weakest point only if it is strictly weaker; adding "
  "with a minimum distance leaves exactly one strongest point of the new point and those closer than that distance (also across cell "
  "borders) and touches no other; thinning removes only the weakest points of overfull or fullest cells and exactly down to the limit; "
  "setting a constant weight and reset affect all points. "
  "Every coordinate inside the image has a cell, everything else and every wrong limit is refused without effect; the mask covers each "
  "point's neighbourhood and each full cell and nothing else.",
  SQ, "all operation sequences, positions, weights and grid sizes",
  "each test checks one operation on one prepared grid; miscounts and wrong neighbours need particular positions and histories",
  [COMMON + "include/aslam/common/occupancy-grid.h", OGI],
  [("cell index by division", OGI + " inputToGridCoordinates"), ("3x3 neighbourhood search", OGI + " addPointOrReplaceWeakestNearestPoints"),
   ("partial sort of a cell", OGI + " removeWeightedPointsFromOverfullCell")],
  [("grid_", "points per cell", OGI), ("current_num_points_", "number of points", OGI)],
  ["query functions after every operation"])
SER = COMMON + "include/aslam/common/channel-serialization.h"
SEC = COMMON + "src/channel-serialization.cc"
P("S05", "Serialized channels come back unchanged, damaged data is never misread",
  "Serializing a channel value (integers, floating point numbers, Eigen matrices of any size, lists of matrices, images) to a string or "
  "a buffer and deserializing it, into a fresh or a used channel, gives back exactly the same value (bit for bit), and string and "
  "buffer form of matrices, lists and images are the same bytes. "
  "A matrix, list or image serialization that was truncated, extended or altered is either refused or is the valid serialization of "
  "the value read; deserializing never reads or writes outside the given bytes and the value, whatever the bytes are.",
  INP, "all values, sizes and element types; all truncations, single byte changes and header combinations",
  "the tests round-trip one random matrix per type and never present damaged bytes",
  [SER, SEC], [("header with dimensions, depth and channels", SEC), ("size checks before copying", SER + " deSerializeFromBuffer")],
  [], ["results of (de)serialization", "memory accesses (sanitizers)"])

CHH = COMMON + "include/aslam/common/channel.h"
CHC = COMMON + "src/channel.cc"
P("S06", "Channel groups: clones are deep, copies share, equality is by contents",
  "cloneChannelGroup() of any group has the same channels with equal values in storage of its own (images share their pixels), so that "
  "no later change of one is visible in the other; copying or assigning a group shares the channels instead. "
  "A group holds exactly the channels added and not removed, under their names, with the value last set; adding an existing channel and "
  "reading a missing one or one of another type is refused without effect. "
  "isChannelGroupEqual() is true exactly if both groups have the same channel names with equal values, for all values including matrices, "
  "lists and images of different size, type and number of image channels and empty ones; it is symmetric.",
  SQ, "all sequences of operations on two groups, all pairs of values",
  "the tests add one channel and read it back; equality is never asked about values of different shape",
  [CHH, CHC, COMMON + "include/aslam/common/channel-declaration.h"],
  [("clone of every channel", CHC + " cloneChannelGroup"), ("comparison per name", CHC + " isChannelGroupEqual"),
   ("deep or shallow copy per value type", CHH + " ChannelValueCloner")],
  [("channels_", "name to shared channel", CHH)], ["channel accessors", "isChannelGroupEqual"])
HAM = COMMON + "include/aslam/common/hamming-inl.h"
DUT = COMMON + "include/aslam/common/descriptor-utils.h"
P("S07", "Descriptor distances and statistics agree with bit-by-bit counting",
  "The Hamming distance of two descriptors of equal size is the number of differing bits, for every size (also not a multiple of 16 "
  "bytes, also more than 512 bytes), alignment and content; it is symmetric, zero for equal descriptors only, and descriptors of "
  "different size are refused. "
  "Reading, setting and flipping a bit affects exactly that bit, a bit outside the descriptor is refused, and flipping N random bits "
  "flips exactly N. "
  "The rounded mean sets a bit exactly if more than half of the descriptors do; mean absolute deviation, floating point mean, standard "
  "deviation and the descriptor closest to the median have their mathematical values for every list of descriptors.",
  INP, "all descriptor sizes, alignments, contents and lists of descriptors",
  "the tests compare random 48 byte descriptors; tails, unaligned data and counters that overflow are never reached",
  [COMMON + "include/aslam/common/hamming.h", HAM, DUT, COMMON + "include/aslam/common/feature-descriptor-ref-inl.h"],
  [("16 byte SSE kernel and byte-wise tail", HAM), ("bit counting per descriptor", DUT)], [],
  ["return values", "memory accesses (sanitizers)"])
FDR = COMMON + "include/aslam/common/feature-descriptor-ref.h"
P("S08", "Descriptor references own, copy, share and free exactly their data",
  "After any sequence of construction, copy, assignment (also to itself), Allocate(), Release(), set_data(), writes and destruction each "
  "reference has the size and bytes it was given; an owner points to memory of its own that it frees exactly once, a reference to "
  "foreign memory points exactly there and never frees it. "
  "Copying an owner makes a deep copy, copying a reference that does not own shares its data; a write through one reference is visible "
  "exactly in those that share the memory. "
  "Reading or writing an index at or beyond the size and releasing what is not owned is refused; two references are equal exactly if "
  "their sizes and bytes are, and nothing equals a reference without data except another one.",
  SQ, "all sequences of operations on several references and foreign buffers",
  "double frees, leaks and stale pointers need particular sequences of ownership changes, of which the tests try almost none",
  [FDR], [("ownership flag", FDR), ("deep copy on assignment", FDR + " operator=")],
  [("owned_", "whether data_ is freed by this reference", FDR), ("data_", "the bytes", FDR)],
  ["data(), size() and contents of every reference", "array allocations and deallocations"])
ACC = COMMON + "include/aslam/common/statistics/accumulator.h"
P("S09", "Accumulators, statistics and timers report exactly the samples they got",
  "An accumulator reports for every sequence of samples the exact number, sum, overall and windowed mean, windowed variance (of the last "
  "N samples), minimum, maximum and latest sample; without samples sum and means are 0. "
  "The registries report under each tag exactly the figures of that tag's own samples, for values and for time differences between "
  "them (rate in Hz included), and Reset() forgets everything. "
  "A timer adds the time between Start() and Stop() once, at the latest when it is destroyed, and nothing after Discard(); starting a running or stopping a stopped timer is "
  "refused. "
  "A duration is printed as hours, minutes and seconds denoting that duration, and Print() and the YAML file contain every tag.",
  SQ, "all sequences of samples, registry and timer operations under a controlled clock",
  "no test covers these classes; windows that wrap around, empty ones and repeated stops need particular sequences",
  [ACC, COMMON + "include/aslam/common/statistics/statistics.h", COMMON + "src/statistics.cc", COMMON + "include/aslam/common/timer.h",
   COMMON + "src/timer.cc"],
  [("circular buffer of the last N samples", ACC), ("one accumulator per handle", COMMON + "src/statistics.cc, " + COMMON + "src/timer.cc")],
  [("window_samples_, sum_, totalsamples_", "accumulated figures", ACC)], ["static query functions", "printed text and YAML file"])
YE = COMMON + "include/aslam/common/yaml-serialization-eigen.h"
P("S10", "YAML round trips are exact and damaged YAML is refused, not misread",
  "Writing an Eigen matrix (any size and element type) or a sensor (any identifier, topic and description) as YAML, to a node or a "
  "file, and reading it back gives exactly the same value. "
  "Reading a matrix or sensor from any YAML node either succeeds with exactly the value written in that node or reports failure: a wrong number of rows, "
  "columns or elements, a missing field, an invalid identifier or text that is not a number is never accepted, crashes or reads "
  "outside the data. "
  "safeGet() and hasKey() report absent and unreadable keys without throwing; two sensors are equal exactly if their parts are.",
  INP, "all matrix shapes and values, all declared against actual sizes, damaged texts, sensor texts",
  "the tests cover none of this; a mismatch between declared and written size only shows with particular nodes",
  [YE, COMMON + "include/aslam/common/yaml-serialization.h", COMMON + "include/aslam/common/yaml-file-serialization.h",
   COMMON + "include/aslam/common/sensor.h", COMMON + "src/sensor.cc"],
  [("rows, cols and data of the node compared", YE), ("field by field with an error return", COMMON + "src/sensor.cc")], [],
  ["decoded values and return codes"])

VNP = ["aslam_cv_pipeline/include/aslam/pipeline/visual-npipeline.h", "aslam_cv_pipeline/src/visual-npipeline.cc"]
VP = ["aslam_cv_pipeline/include/aslam/pipeline/visual-pipeline.h", "aslam_cv_pipeline/src/visual-pipeline.cc"]
P("C09", "Multi-camera pipeline: concurrent use gives what some order of images gives",
  "Whatever the number of worker threads, of threads that feed images and of threads that read results, VisualNPipeline behaves as if the "
  "processed images had been added and the results been read one at a time, in an order that respects what happened before what: "
  "every image is processed once and becomes part of exactly one nframe (or of none, by the documented rules for late, lost and "
  "overtaken images), no complete nframe is lost, duplicated or delivered in parts, the counters fit, and an image added before "
  "another call starts is visible to it. No data race on the way.",
  ["schedules", "programs"],
  "all interleavings of workers, producers and consumers up to the preemption bound, several arrival orders and time offsets",
  "the tests of the pipeline feed images from one thread; lost or mixed nframes need a worker to be preempted between processing and insertion",
  VNP + VP, [("both maps guarded by one mutex", VNP[1] + " work, getNextImpl, getLatestAndClear")],
  [("processing_", "nframes being assembled, by time", VNP[0]), ("completed_", "output queue, by time", VNP[0])],
  ["results of getNext(), getLatestAndClear(), the counters", "the pipelines' processFrameImpl()"])
P("C10", "Multi-camera pipeline: no blocking call hangs, shutdown releases everybody",
  "getNextBlocking() and getLatestAndClearBlocking() return an nframe as soon as one is complete, and processImageBlockingIfFull() "
  "accepts its image as soon as the output queue is shorter than the limit, whichever call made the room. "
  "shutdown() makes every blocked and every later blocking call return false, however it interleaves with them. "
  "An image for which true was returned is processed, one for which false was returned never is; waitForAllWorkToComplete(), "
  "shutdown() and the destructor return, and when the destructor returns every accepted image has been processed.",
  ["schedules", "programs"],
  "all interleavings up to the preemption bound, spurious wake-ups and every choice of the notified thread",
  "a lost wake-up or a missing notification hangs in few schedules, which no test forces",
  VNP, [("two condition variables, signalled on every change of the queue", VNP[1]), ("shutdown flag", VNP[1] + " shutdown")],
  [("shutdown_", "blocking calls give up", VNP[0])], ["return of the blocking calls", "number of processed images"])
P("S11", "Multi-camera pipeline: images are matched by time and delivered in order",
  "An image joins the nframe being assembled whose time (that of its first image) is nearest, if it is at most the tolerance away, and else "
  "starts a new one; a second image of the same camera replaces the first; times are those the pipelines assign. "
  "An nframe is delivered exactly when the frames of all its cameras are set and no older nframe is still being assembled, oldest first, with each "
  "camera's image, time and calibration in its place; incomplete nframes are only given up if more than three nframes are "
  "being assembled and two complete ones in a row follow, or if getLatestAndClear() returned a newer one. "
  "getLatestAndClear() returns the newest and clears the older ones; the dropping feed removes exactly the oldest nframe when the queue is full and "
  "says so. Images of the wrong size, camera indices that do not exist and rigs that do not fit the pipelines are refused.",
  SQ, "all sequences of images (cameras and times around the tolerance, distant, negative) and reads up to a depth",
  "the tests feed a few fixed orders; wrong matching or dropping needs particular arrival orders and offsets",
  VNP + VP, [("nearest nframe by time", VNP[1] + " work"), ("drop rule", VNP[1] + " work"), ("chronological move to the output", VNP[1] + " work")],
  [("processing_", "nframes being assembled, by time", VNP[0]), ("completed_", "output queue, by time", VNP[0])],
  ["delivered nframes", "getNumFramesComplete(), getNumFramesProcessing()"])
VF = ["aslam_cv_frames/include/aslam/frames/visual-frame.h", "aslam_cv_frames/src/visual-frame.cc"]
P("S12", "VisualFrame: keypoint channels and descriptor blocks stay aligned",
  "Through every sequence of setting, swapping, extending, clearing, discarding, copying and (de)serializing, entry i of every keypoint "
  "channel belongs to keypoint i, and the keypoints of a descriptor type are the contiguous range of that type's descriptor block, in the order added. "
  "Entries a block does not provide get the default. discardUntrackedObservations() removes exactly the keypoints with a "
  "negative track id, from every channel and every block, and lists them; clearKeypointChannels() leaves no keypoint and no descriptor. "
  "Indices outside the frame, the block or the type, channels and types that are not there are refused. Copies are equal, and independent "
  "of their original; frames are equal exactly if their contents are. Bearing vectors are those of the keypoints asked for.",
  SQ, "all sequences of operations up to a depth, all blocks with each channel present or not",
  "no test of the stable suite covers VisualFrame; misaligned channels need several blocks with different channels, or a discard in between",
  VF, [("one range per descriptor block", VF[1] + " getDescriptorBlockTypeStartAndSize"), ("padding with the default", VF[1] + " extendDataVector")],
  [("channels_", "keypoint channels and descriptor blocks", VF[0])], ["accessors of all channels, by index and by type", "operator=="])
NCAM = ["aslam_cv_cameras/include/aslam/cameras/ncamera.h", "aslam_cv_cameras/src/ncamera.cc"]
P("S13", "Camera rig: cameras, identifiers, indices and extrinsics stay in step",
  "Through every sequence of replacing cameras, setting extrinsics, copying, copying with new identifiers or without distortion, "
  "writing and reading YAML, a camera rig finds exactly the cameras it has: hasCameraWithId(), getCameraIndex() and access by id and by index agree, "
  "identifiers not in the rig are not found, indices outside are refused. A copy is equal, owns its cameras and does not change with its "
  "original; copies with new identifiers have fresh ones; rigs are equal only if cameras and extrinsics are. A rig "
  "read from YAML is the one written (T_B_C or T_C_B), whatever the object contained before, and damaged YAML is refused.",
  SQ, "all sequences of operations up to a depth over rigs of 1-3 cameras; every kind of damage of the YAML",
  "no stable test covers NCamera; stale indices only show after swapping or copying cameras",
  NCAM + ["aslam_cv_cameras/src/camera-factory.cc", "aslam_cv_cameras/src/camera.cc"],
  [("id_to_index_ rebuilt from cameras_", NCAM[1] + " initInternal")], [("id_to_index_", "camera id -> index", NCAM[0]), ("cameras_, T_C_B_", "cameras and extrinsics", NCAM[0])],
  ["getCameraIndex(), getCamera(), get_T_C_B()", "operator==", "YAML nodes"])
VNF = ["aslam_cv_frames/include/aslam/frames/visual-nframe.h", "aslam_cv_frames/src/visual-nframe.cc"]
P("S14", "VisualNFrame and feature tracks: every frame in its camera's place, deep copies",
  "Through every sequence of setting and unsetting frames, exchanging the rig, copying, assigning (also to itself), releasing images and clearing "
  "keypoints, an nframe returns at each index the frame set there or says that there is none; frames of another camera than the rig's, absent frames, "
  "rigs of another size and indices outside are refused; minimum and maximum time are those of the frames that are set, and never made up. "
  "Copies own their frames; nframes are equal exactly if identifier, rig and frames (also unset ones) are. A feature "
  "track lists the observations added, in order, each referring to the nframe, frame, keypoint, descriptor and camera it was added with; observations that do not exist are refused; "
  "the diagonal is that of the smallest box around the keypoints, wherever they lie.",
  SQ, "all sequences of operations up to a depth for 1-3 cameras; all sequences of observations, with coordinates of both signs",
  "no stable test covers VisualNFrame or FeatureTrack; unset frames, self assignment and negative coordinates are never sampled",
  VNF + ["aslam_cv_frames/include/aslam/frames/feature-track.h", "aslam_cv_frames/include/aslam/frames/keypoint-identifier.h"],
  [("deep copy of frames", VNF[1] + " operator="), ("frame of the rig's camera", VNF[1] + " setFrame")],
  [("frames_", "one slot per camera", VNF[0]), ("keypoint_identifiers_", "observations of a track", "aslam_cv_frames/include/aslam/frames/feature-track.h")],
  ["accessors of the nframe", "operator==", "KeypointIdentifier accessors"])
TRKF = ["aslam_cv_tracker/src/track-manager.cc", "aslam_cv_tracker/include/aslam/tracker/track-manager.h", "aslam_cv_tracker/src/tracking-helpers.cc"]
P("C11", "Track identifiers: unique across trackers that run at the same time",
  "However the threads are scheduled, two tracks that track managers of different threads start never get the same identifier, all "
  "keypoints of a track carry the one identifier, and nothing else is shared between the managers: ThreadSafeIdProvider hands out every number from "
  "the initial one once, in increasing order per thread. No data race on the way.",
  ["schedules", "programs"],
  "all interleavings of 2-3 trackers up to the preemption bound",
  "the id counter is shared by all trackers of the process; a duplicate needs two of them to be in it at once",
  TRKF[:2], [("mutex around the counter", TRKF[1] + " ThreadSafeIdProvider"), ("static provider", TRKF[0] + " track_id_provider_")],
  [("id_", "next identifier", TRKF[1])], ["track ids of the frames", "results of getNewId()"])
P("S15", "Tracks: matches carry track ids along; keypoints are appended whole",
  "Applying matches gives matched keypoints the same track id: a new one, never used before, if neither had one, else the "
  "one that was there; keypoints without match keep theirs, a missing channel starts as all -1. Matches that are not exclusive, lie outside the frames, "
  "or join two different tracks are refused. So along any sequence of frames the keypoints connected by matches share one id and others do not. "
  "OpenCV keypoints and descriptors inserted into a frame come after the ones it has, each with its position, response, size, "
  "angle, uncertainty, descriptor and no track, and those that were there are unchanged; lists that do not fit (sizes, types, layout, width of the descriptors, uncertainty) are refused.",
  SQ, "all sequences of match lists between 2-3 frames (also not exclusive and outside); all sequences of insertions with every kind of damage",
  "the one test applies one exclusive list to one pair of frames; ids only diverge over several frames and partial tracks",
  TRKF, [("new id or copy of the valid one", TRKF[0] + " applyMatchesToFrames"), ("exclusiveness", TRKF[1] + " addToSetsAndCheckExclusiveness")],
  [("track id channel", "one id per keypoint", "aslam_cv_frames/include/aslam/frames/visual-frame.h")], ["getTrackIds()", "keypoint channels"])
MATF = ["aslam_cv_matcher/include/aslam/matcher/gyro-two-frame-matcher.h", "aslam_cv_matcher/src/gyro-two-frame-matcher.cc", "aslam_cv_matcher/src/match-helpers.cc"]
P("S16", "Gyro matcher: exclusive matches, exactly those the documented search gives",
  "Every match joins two existing keypoints, no keypoint is in two matches, only keypoints whose prediction succeeded are matched, within the large "
  "window around the prediction and with more equal bits than the threshold. Each keypoint takes the candidate with most equal bits of the small window, or if none qualifies of the large one; it is given up if "
  "the ratio test against the second best candidate (qualified or not) fails; a keypoint wanted by several goes to the best of them, and the "
  "others may take one of their other candidates by the strict threshold. Every pixel row of the image is searched; the result depends "
  "neither on earlier matchers, nor on the order of the keypoints, nor on other descriptor types in the frames. Frames, predictions and descriptors that do not fit are refused. "
  "Predictions by rotation are the rotated rays, or the unchanged keypoint if they leave the image; bearing vectors are those of the matched keypoints.",
  INP, "all small sets of keypoints with descriptors around the thresholds, all places of small images, all sequences of two descriptor sizes",
  "no stable test covers the matcher; wrong second-best distances or lost rows need particular orders and places",
  MATF, [("best and second best candidate", MATF[1] + " matchKeypoint"), ("sorted rows and lookup table", MATF[1] + " initialize"), ("inferior matches", MATF[1] + " matchInferiorMatches")],
  [("kp1_idx_to_matches_iterator_map_", "keypoint of k+1 -> match", MATF[0]), ("inferior_match_keypoint_idx_k_", "keypoints that lost theirs", MATF[0])],
  ["the list of matches", "predictions and success flags"])
CAMF = ["aslam_cv_cameras/src/camera.cc", "aslam_cv_cameras/src/camera-pinhole.cc", "aslam_cv_cameras/src/camera-unified-projection.cc",
        "aslam_cv_cameras/include/aslam/cameras/camera-3d-lidar-inl.h", "aslam_cv_cameras/include/aslam/cameras/camera.h",
        "aslam_cv_cameras/src/distortion-equidistant.cc", "aslam_cv_cameras/src/distortion-fisheye.cc", "aslam_cv_cameras/src/distortion-radtan.cc"]
P("S17", "Cameras: every form of projection agrees with the camera model",
  "For every camera model (pinhole, unified, lidar), distortion (none, radial-tangential, equidistant, fisheye) and point, all forms of projection give "
  "the same keypoint and status, those of the documented model: with or without Jacobians, homogeneous (negated for negative w), vectorized, "
  "templated, with external parameters (as a camera that has them), clones. Status: visible exactly if the keypoint lies in the image and the point is valid and in front; no number is never visible. "
  "Jacobians with respect to point, intrinsics and distortion, also at the image center, are the derivatives of the projection. Projecting and back-projecting are inverse to "
  "each other wherever the distortion can be inverted; all forms of back-projection agree. Visibility (also with margin) and masks follow the "
  "pixel borders exactly; masks and parameters that do not fit are refused. Line delays grow with the row, for the lidar the column, up to that of all lines.",
  INP, "lattices of points and keypoints including axes, borders, the near limits, infinities and NaN, for 10 cameras x 11 distortions and several parameter sets",
  "no stable test covers the cameras; the existing ones sample random points, which miss the center, negative w, external parameters and partial lidars",
  CAMF, [("project3Functional()", CAMF[1]), ("distortUsingExternalCoefficients() and Jacobians", CAMF[5]), ("isMasked()", CAMF[4])],
  [("intrinsics_, distortion_", "parameters of the camera", CAMF[4])], ["keypoints, ProjectionResult and Jacobians", "backProject3/4", "isMasked()"])
P("S18", "Camera objects: copies independent, YAML round trips whole, factories agree",
  "Through every sequence of changing parameters, distortion, mask, line delay and identity, cloning and loading, a camera has exactly the parameters "
  "set last; a clone is equal, owns its distortion and mask and does not change with its original. Cameras are equal exactly if type, "
  "size, intrinsics, distortion, delay, compression, identifier, topic and description are. A camera read from YAML is the one written, whatever the object held before; "
  "YAML that is damaged, or of another camera type, is refused, and only the optional keys have defaults. All factories make the same camera from the same parameters, "
  "and refuse parameters that are not valid; a mask always has the size of the image.",
  SQ, "all sequences of operations up to a depth from every combination of camera and distortion; all pairs of cameras up to two changes apart; every kind of damage",
  "no stable test covers the cameras; left-over state only shows when an object is loaded or changed twice",
  CAMF[:3] + ["aslam_cv_cameras/src/camera-factory.cc", "aslam_cv_cameras/src/camera-3d-lidar.cc", "aslam_cv_cameras/src/distortion.cc", "aslam_cv_cameras/include/aslam/cameras/camera-factory.h"],
  [("loadFromYamlNodeImpl()", CAMF[0]), ("createCamera()", "aslam_cv_cameras/src/camera-factory.cc"), ("copy constructors", CAMF[4])],
  [("intrinsics_, distortion_, mask_", "parameters of the camera", CAMF[4])], ["accessors", "operator==", "YAML nodes"])
CALD = "aslam_cv_calibration/"
P("S19", "Calibration targets: points, observed corners and detections keep their numbers",
  "A target has the points of its geometry in row-major order: index, grid coordinates (column, row), position, width and height agree, and moving a point moves no other. "
  "An observation finds exactly the corners observed, by index and by id, with their place in the image and their point on the target. Of the tags detected exactly those "
  "that are good, belong to the target and keep the distance to the border count, each with its four corners under the indices of its points, in any order of "
  "detection; fewer than the minimum or a tag seen twice give no observation; corners that the refinement moves too far are left out. Indices outside, targets and configurations that are not valid are refused; what a configuration leaves out "
  "is never made up. Initial focal lengths are numbers, close to the real ones, and depend on complete observations only; circles meet in points on both of them.",
  INP, "all grid sizes, all lists of corners, all lists of up to 3 detections of every quality, all mixes of good, bad and missing parameters, lattices of circles, lists of views",
  "the existing tests observe every corner of one target; partial observations, limits and incomplete views are not sampled",
  [CALD + "src/target-base.cc", CALD + "include/aslam/calibration/target-observation.h", CALD + "src/target-aprilgrid.cc", CALD + "include/aslam/calibration/helpers.h", CALD + "src/focallength-initializers.cc"],
  [("row-major points", CALD + "src/target-base.cc"), ("tag filter and corner numbering", CALD + "src/target-aprilgrid.cc detectTargetInImage"), ("id lookup", CALD + "include/aslam/calibration/target-observation.h")],
  [("cornerid_to_index_map_", "corner id -> index", CALD + "include/aslam/calibration/target-observation.h")], ["accessors of targets and observations", "detectTargetInImage()", "initial intrinsics"])

PIPED = "aslam_cv_pipeline/"
P("S20", "Undistorted images show at each pixel what its ray shows in the input image",
  "For every camera, alpha and scale the undistortion maps send each pixel of the output image to the place in the input image where the ray of that pixel is seen, the same "
  "for all types of maps; pixels whose ray the input camera cannot see, or sees far outside, never show a part of the input image. The output camera has no distortion, keeps the "
  "camera type asked for and is scaled; with alpha 0 all its pixels are valid, with alpha 1 no pixel of the input is lost, in between the intrinsics are interpolated; without "
  "distortion nothing changes. The undistorter owns its copy of the camera. Bad parameters, cameras without undistortion and images of another size are refused. A visual "
  "pipeline returns frames with a new id, the given time stamp, both cameras and the raw image (copied if asked), and processes the undistorted image. Converting maps keeps coordinates.",
  INP, "all combinations of cameras, distortions, sizes, alpha, scale and kind of output, each with every pixel; all interpolations and image types; all sequences of images",
  "the existing test looks at two cameras with alpha and scale 1 and compares the maps with the same, flipped rays the code uses",
  [COMMON + "include/aslam/common/undistort-helpers.h", PIPED + "src/undistorter-mapped.cc", PIPED + "include/aslam/pipeline/undistorter-mapped-inl.h", PIPED + "src/visual-pipeline.cc",
   PIPED + "src/visual-pipeline-null.cc", PIPED + "src/test/convert-maps-legacy.cc"],
  [("rays to map entries", COMMON + "include/aslam/common/undistort-helpers.h buildUndistortMap"), ("inner and outer rectangle", COMMON + "include/aslam/common/undistort-helpers.h getOptimalNewCameraMatrix"),
   ("construction of frames", PIPED + "src/visual-pipeline.cc processImage")],
  [("map_u_, map_v_", "place of each output pixel in the input image", PIPED + "include/aslam/pipeline/undistorter-mapped.h")], ["getUndistortMapU/V()", "getOutputCamera()", "processImage()", "the frame returned"])

TRID = "aslam_cv_triangulation/"
P("S21", "Triangulation finds the point nearest to all rays, or says that it cannot",
  "Every linear triangulation returns the point with the least squared distances to the rays of all observations, whichever function, order of observations, mounting of the "
  "camera, length of the bearing vectors and camera (of several) it is; without noise that is the observed point. Rays that are parallel or all on one line are reported as unobservable, "
  "fewer than two as too few, and the point is left alone then; well separated rays are never refused, whatever their place in the image. Gauss-Newton triangulation agrees where the views are "
  "far enough from each other, wherever the origin is. Feature tracks use each observation with its own camera and pose. Sizes that do not fit and cameras that do not exist are refused.",
  INP, "every tuple of 2-4 views out of 8 poses and 3 mounts of 8 points with and without noise, rays down to 1e-8 from the image plane, all tracks through rigs of 2 cameras",
  "the existing tests use one row of poses or random ones around one landmark, and never a feature track",
  [TRID + "src/triangulation.cc", TRID + "include/aslam/triangulation/triangulation.h"],
  [("linear systems and rank test", TRID + "src/triangulation.cc linearTriangulateFromNViews"), ("Gauss-Newton", TRID + "src/triangulation.cc iterativeGaussNewtonTriangulateFromNViews"),
   ("rays of a track", TRID + "src/triangulation.cc fastTriangulateFeatureTrack")],
  [("status_", "outcome", TRID + "include/aslam/triangulation/triangulation.h")], ["the point and the status returned"])
TRKD = "aslam_cv_tracker/"
P("S22", "The gyro tracker follows the right unmatched keypoints by optical flow",
  "track() first matches descriptors and then gives to the optical flow exactly the keypoints of frame k that are still unmatched and either detected, with a track of at least the threshold "
  "since they are, or themselves tracked by optical flow, for less than the maximum length; at most ratio times the keypoints of frame k+1, detected ones with long tracks first, then tracked "
  "ones with short tracks, and only those whose predicted place is in the image. A match counts for the length if the user let it pass to the track ids, the first one of a track as well. "
  "What the flow finds inside the border and the extractor keeps is appended to frame k+1 with its place, the scale, orientation and score of frame k, its descriptor and no track id, and "
  "matched to the keypoint it comes from; nothing else of the frames changes. With ratio 0 there is no optical flow. Trackers are independent, frames that do not fit are refused.",
  SQ, "every history of 3-7 calls over detections, outcomes of the flow and rejected matches, for thresholds 0-2, maximum lengths 1-10, ratios 0-1, two ways of handing out track ids",
  "the tracker has no tests; what it does depends on the history of statuses, matches and track ids of several frames",
  [TRKD + "src/feature-tracker-gyro.cc", TRKD + "include/aslam/tracker/feature-tracker-gyro.h", TRKD + "src/tracking-helpers.cc"],
  [("candidates", TRKD + "src/feature-tracker-gyro.cc computeLKCandidates"), ("lengths", TRKD + "src/feature-tracker-gyro.cc computeStatusTrackLengthOfFrameK"),
   ("optical flow", TRKD + "src/feature-tracker-gyro.cc lkTracking")],
  [("track_ids_k_km1_, feature_status_k_km1_, status_track_length_km1_", "history", TRKD + "include/aslam/tracker/feature-tracker-gyro.h")],
  ["what the optical flow and the extractor are given, the matches, frame k+1"])

HLP = COMMON + "include/aslam/common/"
P("S23", "Image comparison, hashes, covariances, Jacobians and aligned memory are exact",
  "ImagesEqual() is true exactly if type and size agree and no value of any pixel and channel differs by more than the tolerance, also for parts of larger images, and gives the largest "
  "difference and where it is. Equal matrices have equal hashes and hash containers find exactly the matrices put in; matrices that differ only in place or sign are told apart. A rotated "
  "covariance is R C R^T, stays symmetric, and rotating back gives the original. Numerical Jacobians are exact for polynomials of the degree of the method, whatever the step size, and leave the point alone. "
  "aligned_shared() and aligned_unique() give aligned objects built from the arguments as they were passed; each is destroyed exactly once, as the type it was created as, and its memory freed, "
  "also through base classes, after moves, and if the constructor throws.",
  INP, "all images that differ in one place, of all types; all small matrices over a set of values; all quarter turns; all polynomials of a set; all sequences of 3 allocations",
  "no stable test covers these helpers, which the tests and containers of all other parts rely on",
  [HLP + "opencv-predicates.h", HLP + "eigen-hash.h", COMMON + "src/covariance-helpers.cc", HLP + "numdiff-jacobian-tester.h", HLP + "memory.h"],
  [("comparison", HLP + "opencv-predicates.h ImagesEqual"), ("aligned allocation and deleters", HLP + "memory.h"), ("hash of all elements", HLP + "eigen-hash.h")],
  [("owned object and its deleter", "who frees what", HLP + "memory.h")], ["return values", "constructor and destructor calls, allocated bytes"])

VISD = "aslam_cv_visualization/"
P("S24", "Drawings show the image of the frame, marked at the right keypoints only",
  "drawKeypoints() and drawKeypointMatches() give, whatever the output image held before, a color image of the size of the raw image of the frame: gray as the raw image away from all marks, "
  "with a mark at each keypoint of the descriptor type asked for that lies in the image, and for each match a line from the keypoint of frame k to the marked keypoint of frame k+1 it "
  "is matched to. Frames without keypoints or matches give the plain image. Keypoints of other types and keypoints not matched leave no trace, frames and raw images are not changed, "
  "and matches whose keypoints do not exist are refused.",
  INP, "all lists of keypoints of two types and all lists of matches, valid and not, for several raw and output images, each with every pixel",
  "no test draws anything; left-over images, types and indices only matter in combination",
  [VISD + "src/basic-visualization.cc"],
  [("drawing", VISD + "src/basic-visualization.cc")], [("image", "output", VISD + "src/basic-visualization.cc")], ["pixels of the output image"])

DETD = "aslam_cv_detector/"
P("S25", "Line segments are found where straight edges are, complete, and nowhere else",
  "LineSegmentDetector::detect() covers every straight edge of sufficient contrast that is clearly longer than the minimum length with segments along it, whatever its direction, position and "
  "polarity, gives none shorter than the minimum and none away from edges, in blank images or on gentle slopes, all with the bright side on the same hand. The result depends on the pixels only: not on earlier "
  "images, other detectors, or whether the image is part of a larger one; the image is not changed and the list of lines replaced. The detector below does so for all refinements, scales, tolerances and depths, "
  "with one width, precision (and number of false alarms) per line. Filters by length and angle keep exactly the lines asked for, in order, in any container and in place, and count the others; lines meet where "
  "they meet unless parallel; comparisons count the pixels that differ; drawings show exactly the lines.",
  INP, "an edge at every angle, all rectangles of a lattice, all patterns of 3x3 cells, all sequences of images through used detectors, all lists of lines and pairs of lines of a lattice",
  "no test covers the detector; left-over state, borders, directions and containers only show in combinations",
  [DETD + "src/line-segment-detector.cc", DETD + "src/lsd/lsd-opencv.cc", DETD + "include/lsd/lsd-opencv.h"],
  [("region growing and rectangles", DETD + "src/lsd/lsd-opencv.cc"), ("minimum length", DETD + "src/line-segment-detector.cc detect")],
  [("used, angles, modgrad", "pixels of the image in use", DETD + "src/lsd/lsd-opencv.cc")], ["lines, widths and precisions returned", "pixels drawn"])

GEOD = "aslam_cv_geometric_vision/"
P("S26", "Outlier rejection and pose estimation keep matches, cameras and frames apart",
  "Outlier rejection by two RANSACs compares, match by match, the rays of the keypoints matched, under the rotation, threshold, iterations and seed asked for, and splits the matches into "
  "those that are inliers of either (in order) and the others, none if less than six matches or inliers, whatever the lists held before. The pose estimators hand each measurement to opengv as "
  "the ray of its camera with its landmark, each camera with its place in the rig and a threshold that fits the pixel error and the mean focal length, and return the estimate (refined with all "
  "inliers if asked for), inliers, distances and iterations; a failure leaves the pose alone. The pose from 3D points of several cameras is the true one, with exactly the outliers left out, "
  "from six good points on. Indices of cameras that do not exist and lists of different lengths are refused.",
  INP, "every answer of both RANSACs for up to 7 matches, every assignment of measurements to the cameras of rigs of 1-3, every choice of outliers among 3D points",
  "no test covers these; a swapped frame, camera or index gives results that only look wrong",
  [GEOD + "src/match-outlier-rejection-twopt.cc", GEOD + "src/pnp-pose-estimator.cc", "aslam_cv_matcher/src/match-helpers.cc"],
  [("two RANSACs", GEOD + "src/match-outlier-rejection-twopt.cc"), ("pose estimators", GEOD + "src/pnp-pose-estimator.cc")],
  [("inlier sets", "opengv", GEOD + "src/pnp-pose-estimator.cc")], ["lists of matches", "pose, inliers, distances, iterations", "what opengv is asked"])
PIPD = "aslam_cv_pipeline/"
P("S27", "Feature pipelines store exactly what detector and extractor answered",
  "The frames of the BRISK and FREAK pipelines hold, for each keypoint the extractor kept and in its order, place, scale, orientation and score as left by the extractor, the uncertainty 0.8 and its "
  "descriptor as a column of as many bytes; with no keypoints all of these are set but empty. Detector and extractor get the image after undistortion, the extractor the keypoints found, and both "
  "the parameters given to the constructor or set last, each in its place. They live as long as the pipeline and no longer. Frames are independent of earlier and later images of the same pipeline.",
  INP, "every number of keypoints up to 3, every subset the extractor keeps, with and without undistortion and copying, over sequences of images, and every combination of parameters set again",
  "no test runs these pipelines; keypoints removed by the extractor, frames without any, and life times only matter with a camera",
  [PIPD + "src/visual-pipeline-brisk.cc", PIPD + "src/visual-pipeline-freak.cc", PIPD + "src/visual-pipeline.cc"],
  [("processFrameImpl()", PIPD + "src/visual-pipeline-brisk.cc"), ("processFrameImpl()", PIPD + "src/visual-pipeline-freak.cc")],
  [("detector_, extractor_", "shared objects", PIPD + "include/aslam/pipeline/visual-pipeline-freak.h")], ["channels of the frame", "what detector and extractor are given"])
P("S28", "KAZE: scale space, extrema and descriptors are what their definitions say",
  "A FED cycle takes exactly its time, with positive steps, as few as are stable. Each level of the scale space, explicit (FED) or implicit (AOS), is the solution of its diffusion scheme with the chosen "
  "conductivity and the contrast of the image's gradients: brightness is conserved and flat images stay flat, for every image size; images of another size or type are refused. Keypoints are exactly the "
  "extrema of the detector response, of close ones the strongest, placed by the paraboloid through the response or dropped. Descriptors are unit vectors that do not change with contrast, turn "
  "with the main orientation and agree among the kinds; row i belongs to keypoint i. An object used again, with filled vectors too, answers like a new one, and leaves images alone.",
  INP, "all numbers of steps and times, every peak and conductivity, all patterns of neighbours, every pair of extrema, every sub-pixel offset, every direction, sequences of images, all options",
  "no test runs the KAZE code at all; wrong borders, steps, signs or left-over state give features that only match badly",
  [DETD + "src/kaze/KAZE.cpp", DETD + "src/kaze/fed.cpp", DETD + "src/kaze/nldiffusion_functions.cpp"],
  [("fed_tau_internal()", DETD + "src/kaze/fed.cpp"), ("nld_step_scalar()", DETD + "src/kaze/nldiffusion_functions.cpp"), ("Create_Nonlinear_Scale_Space(), Determinant_Hessian_Parallel()", DETD + "src/kaze/KAZE.cpp")],
  [("evolution_", "levels of one image", DETD + "include/kaze/KAZE.h")], ["time steps", "levels and responses", "keypoints", "descriptors"])
# Not claimed: see NOT_APPLICABLE below.
P("N01", "The opengv solvers find the pose and the inliers there are",
  "Given rays and landmarks of which enough fit one pose, the two RANSACs of the outlier rejection and the absolute pose RANSACs find it and the measurements that fit within the threshold.",
  INP, "all configurations of points, poses, noise and outliers", "continuous space of inputs",
  [GEOD + "src/pnp-pose-estimator.cc"], [("opengv::sac::Ransac", GEOD + "src/pnp-pose-estimator.cc")])
P("N02", "BRISK, FREAK, SURF and AprilTag code finds the right image points",
  "The keypoints, descriptors and tag corners the libraries return are those of the image: repeatable, correctly described and within a pixel of where they are.",
  INP, "all images", "space of images",
  [PIPD + "src/visual-pipeline-brisk.cc", "aslam_cv_calibration/src/target-aprilgrid.cc"], [("detect()", PIPD + "src/visual-pipeline-brisk.cc")])
NOT_APPLICABLE += [
  ("N01", "opengv is not installed here, and the convergence of RANSAC over continuous inputs is a statistical statement without a finite set of behaviours to enumerate; S26 checks everything around it."),
  ("N02", "brisk, opencv_xfeatures2d and the AprilTag library are not installed here, and the quality of detections over all images is not a bounded space; S19 and S27 check everything around them."),
]
