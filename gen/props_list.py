CC = "aslam_cv_common/"
IC = CC + "include/aslam/common/"


def fill(prop):
    # ------------------------------------------------------------------------------------------------ thread pool
    pool = [IC + "thread-pool.h", CC + "src/thread-pool.cc"]
    prop("P01", "Thread pool: all shared state is accessed under the pool's lock",
         "Every access to the thread pool's mutable bookkeeping (task queue, group map, counters, stop flag) from any thread is "
         "made while holding the pool's one mutex, also during start-up and shutdown. No public operation hands out a "
         "reference into that state. Hence no interleaving of enqueue, wait, stop, query and worker steps is a data race.",
         ["schedules"], "all interleavings of any number of client threads and the workers",
         "A test sees a few schedules; a race shows only under one the scheduler happens to produce.", pool,
         [("tasks_mutex_", IC + "thread-pool.h"), ("ThreadPool::run", CC + "src/thread-pool.cc")],
         "interprocedural lockset dataflow (must-hold) over every entry point and the worker body",
         "Every access path in the source is covered; sound for the locks and fields of this class under the aliasing "
         "assumption that two objects of the class are not confused.")
    prop("P02", "Thread pool: no wake-up is lost",
         "Whenever the pool's state changes so that a worker or a thread waiting for the queue to drain could proceed, the "
         "change is made under the pool's mutex and every thread that may be waiting is notified afterwards. Every wait "
         "re-tests its condition after waking. Hence no task stays queued with idle workers, and no waiter or destructor hangs.",
         ["schedules"], "all interleavings of enqueue, worker steps, waiting, stop and destruction",
         "A lost wake-up needs one particular interleaving of two threads; tests pass thousands of times without it.", pool,
         [("tasks_queue_change_", IC + "thread-pool.h"), ("ThreadPool::waitForEmptyQueue", CC + "src/thread-pool.cc")],
         "dataflow over condition-variable waits, state changes and notifications (feasible-path facts)",
         "Each state change is an obligation checked on all feasible paths to the release of the lock.")
    prop("P03", "Thread pool: tasks of one exclusivity group run one at a time, in order",
         "Tasks enqueued with the same exclusivity group are never run concurrently and start in the order they were enqueued. "
         "The group's guard is set in the critical section that removes the task from the queue, stays set while the task runs, "
         "and is cleared afterwards. Non-exclusive tasks are not held up by a busy group, and each task is taken once.",
         ["schedules", "histories"], "all interleavings of workers and enqueuers, all mixes of groups",
         "Order and exclusion violations need two workers to reach the queue in a particular state and order.", pool,
         [("groupid_exclusivity_guards_", IC + "thread-pool.h"), ("groupid_tasks_", IC + "thread-pool.h"),
          ("ThreadPool::run", CC + "src/thread-pool.cc")],
         "dataflow: guard typestate, queue order effects and branch-combination analysis of the worker",
         "Each queue operation and each guard change is an obligation over all paths of the worker loop and the enqueue functions.")
    prop("P04", "Thread pool: accepted tasks run once; shutdown drains and joins",
         "A task accepted by the pool is run exactly once before the destructor returns, also when stop or destruction comes "
         "first; a task offered after stop is refused. The active count is raised in the critical section that takes a task and "
         "dropped after it ran, so waiting for an empty queue returns only when nothing is queued or running. The destructor "
         "stops and joins every worker.",
         ["schedules", "histories"], "all interleavings of enqueue, stop, waitForEmptyQueue and destruction",
         "Shutdown races depend on the instant at which stop or destruction happens relative to each worker's step.", pool,
         [("ThreadPool::~ThreadPool", CC + "src/thread-pool.cc"), ("ThreadPool::enqueueOrdered", IC + "thread-pool.h"),
          ("ThreadPool::waitForEmptyQueue", CC + "src/thread-pool.cc")],
         "event-order dataflow over worker, stop and destructor paths",
         "All paths of each function; the exit, run, count and join events are matched by role, not by text.")
    rw = [IC + "reader-writer-lock.h", CC + "src/reader-writer-lock.cc", IC + "reader-first-reader-writer-lock.h",
          CC + "src/reader-first-reader-writer-lock.cc"]
    prop("P05", "Readers-writer locks: writers exclude everybody, also across upgrades",
         "In both readers-writer locks a writer is admitted only when no other writer and no reader holds the lock, a reader "
         "only when no writer does, and only one reader may be upgrading at a time; a failed upgrade gives up its read lock. "
         "Each operation changes the holder bookkeeping by exactly its share, the in-use query answers false only when nobody "
         "holds or waits, and scoped holders release exactly once, also after a move.",
         ["schedules", "histories"], "all interleavings of acquire, release, upgrade and query by any number of threads",
         "Exclusion breaks only when a third thread arrives between two particular steps of two others.", rw,
         [("ReaderWriterMutex", rw[0]), ("ReaderFirstReaderWriterMutex", rw[2]), ("ScopedReadLock", rw[0]),
          ("ScopedWriteLock", rw[0])],
         "lockset analysis and fact dataflow on the lock's counters at each grant",
         "All paths of every operation of both lock classes; the state is matched by the role of the field.")
    prop("P06", "Readers-writer locks: no waiting thread is forgotten",
         "Whenever an operation on either readers-writer lock can make a waiting reader, writer or upgrader runnable, it wakes "
         "all threads that may wait for that change before it ends; waits re-test their condition. No operation leaves a pending "
         "count or flag changed, or the internal mutex locked, when it returns.",
         ["schedules", "histories"], "all interleavings of acquire, release and upgrade by any number of threads",
         "A missed wake-up needs a waiter in a particular queue at the moment a particular holder leaves.", rw,
         [("cv_readers_", rw[0]), ("cv_writer_finished_", rw[0]), ("ReaderWriterMutex::releaseReadLock", rw[1])],
         "finite-domain dataflow: preservation of 'still blocked' by every un-notified operation",
         "Flags exact and counters abstracted to 0/1/2/many; every operation is run abstractly from every blocked state.")
    # ------------------------------------------------------------------------------------------------ channel groups
    ch = [IC + "channel.h", IC + "channel-declaration.h", IC + "channel-definitions.h", CC + "src/channel.cc"]
    prop("P07", "Channel groups: every access holds the group's lock, without deadlock",
         "Every read or change of a channel group's map of channels, in every accessor, in copying, cloning, comparing and "
         "printing, is made while holding that group's own mutex. No operation takes the same group's mutex twice, also when "
         "it is given the same group twice, and where two groups are locked the two are acquired together without a fixed order.",
         ["schedules"], "all interleavings of any operations on shared groups, all aliasing of the arguments",
         "A race or deadlock shows only when two threads work on the same groups at the same instant, in opposite order.", ch,
         [("ChannelGroup::m_channels_", IC + "channel.h"), ("isChannelGroupEqual", CC + "src/channel.cc"),
          ("getChannelData", IC + "channel-declaration.h")],
         "interprocedural lockset dataflow (must-hold, per object) and acquisition-order analysis",
         "Every access path to the map in the library and in the macros' expansions.")
    prop("P08", "Channel groups: lookups agree on key and type; compare and clone are complete",
         "Has, get, add and remove of one channel use one key and one value type, distinct from every other channel's; getting "
         "or removing an absent channel, adding a present one and getting with the wrong type fail loudly instead of touching "
         "other data. Two groups compare equal only if they are the same object or have the same size and every channel "
         "was found in the other and its value compared equal. Cloning copies every channel under its own key into a channel "
         "object of its own (only the pixels of images stay shared).",
         ["inputs"], "all groups, channel names, value types and contents",
         "Tests use a few channels; agreement of generated accessors and the absent and wrong-type cases are never sampled.", ch,
         [("DECLARE_CHANNEL", IC + "channel-declaration.h"), ("isChannelGroupEqual", CC + "src/channel.cc"),
          ("cloneChannelGroup", CC + "src/channel.cc"), ("Channel", IC + "channel.h")],
         "fact dataflow over map operations with canonical keys; path rules for comparison and cloning",
         "All accessors generated by the macros, the templates they call, and each channel value type instantiated.")
    # ------------------------------------------------------------------------------------------------ whole repository
    prop("P17", "Statistics and timers report what was recorded",
         "Every tag has one handle and one series of its own: the first use makes it, later uses return the same handle, handles stay valid "
         "(also after Reset) and unknown ones are refused; a sample goes, once, to its handle's series, and a running timer adds the time since its last "
         "start, in seconds, when it is stopped or destroyed, and nothing when stopped already or discarded. Number, total, mean, minimum, maximum and last "
         "sample cover all samples, rolling mean and variance (by one less than their number, about their own mean) exactly the last samples of the window, and no mean of "
         "nothing divides by zero. Every query and every line of a report gives the quantity it names, of the tag or handle it is about.",
         ["inputs", "histories"], "all sequences of samples, windows, tags, resets and timer calls",
         "There is no test of statistics or timers; windows that run over, resets and restarts happen only in long runs.",
         [IC + "statistics/accumulator.h", IC + "statistics/statistics.h", CC + "src/statistics.cc", CC + "src/timer.cc"],
         [("Accumulator::Add", IC + "statistics/accumulator.h"), ("Statistics::GetHandle", CC + "src/statistics.cc"),
          ("TimerImpl::Stop", CC + "src/timer.cc")],
         "abstract interpretation of each function over the orders of its inputs (symbolic fields, exact linear arithmetic), compared with the "
         "transfer the quantity requires; dataflow over loops and critical sections",
         "Every way through each function, for every content of the fields; by induction every history. Not decided: rounding, the clock."),

    prop("P18", "Values survive the way to YAML and back, or the reader says so",
         "A matrix is written with all its rows, columns and digits, and reading puts every entry at its own row and column, refusing sizes that are "
         "negative, do not fit the type or disagree with the number of entries. safeGet, hasKey, Load, Save and the file functions report true exactly when the "
         "value of that key or file was read, or everything was written and the stream is good; otherwise they report false (or abort), leave the target as it was and let no exception "
         "of the YAML library escape. What a sensor writes under a key is what it reads from it, and its own reader's and writer's part is never dropped.",
         ["inputs"], "all matrices, types and sizes, all nodes (missing keys, wrong types, broken files), all failures of the streams",
         "Round trips of good values are tested for a few sizes; wrong files, failing streams and unusual shapes are not.",
         [IC + "yaml-serialization-eigen.h", IC + "yaml-serialization.h", IC + "yaml-file-serialization.h", CC + "src/sensor.cc"],
         [("convert::decode", IC + "yaml-serialization-eigen.h"), ("safeGet", IC + "yaml-serialization.h"),
          ("deserializeFromFile", IC + "yaml-file-serialization.h"), ("Sensor::deserialize", CC + "src/sensor.cc")],
         "loop and iterator dataflow for the matrices; abstract interpretation of the readers and writers over all outcomes, with every call of the "
         "YAML library that may raise; key tables of writer and reader compared",
         "Every instantiation seven matrix types stand for; every way through the readers. The YAML library itself is trusted."),

    prop("P19", "Distortion models: parameters, Jacobians and undistortion agree with the model",
         "For every point and every valid coefficient vector, the Jacobian and the parameter Jacobian a distortion model returns are the exact "
         "derivatives of the point it returns (also in the approximations it uses near the image centre), the template for other scalars gives the same "
         "point, the fisheye model's undistortion is the inverse of its distortion, and the iterative ones take Newton steps and return the last one once the residual is small. "
         "Coefficients given from outside are used instead of the model's own, and only those; distort, undistort and their overloads apply the model once, to the "
         "point they are given, with the model's own coefficients. Only coefficient vectors of the model's length (and in the range it declares) "
         "are accepted or read, every model has a type of its own, and models are equal only if type and coefficients are.",
         ["inputs"], "all points, all coefficients, all branches of the models",
         "Derivatives are tested at a few random points, never near the centre; the cameras' tests are not even built here.",
         ["aslam_cv_cameras/src/distortion.cc", "aslam_cv_cameras/src/distortion-equidistant.cc", "aslam_cv_cameras/src/distortion-fisheye.cc",
          "aslam_cv_cameras/src/distortion-radtan.cc", "aslam_cv_cameras/include/aslam/cameras/distortion-fisheye-inl.h",
          "aslam_cv_cameras/include/aslam/cameras/distortion-null.h"],
         [("distortUsingExternalCoefficients", "aslam_cv_cameras/src/distortion-radtan.cc"),
          ("distortParameterJacobian", "aslam_cv_cameras/src/distortion-fisheye.cc"), ("Distortion::distort", "aslam_cv_cameras/src/distortion.cc")],
         "formulas of points and Jacobians extracted on every branch by abstract interpretation, differentiated and compared by exact normal forms",
         "All four models, all branches, with and without external coefficients and Jacobians. Rounding and the convergence of the iterations are left aside."),

    prop("P20", "Camera models: projection, its Jacobians and back projection agree",
         "For every point and every intrinsics, the Jacobians project3Functional returns by point, intrinsics and distortion coefficients are the exact derivatives "
         "of the keypoint (given those of the distortion model), the keypoint does not depend on which of them are asked for, the template for other scalars gives the same "
         "keypoint, and backProject3 gives the direction of the point that was projected (given that undistorting undoes distorting). "
         "Intrinsics and distortion coefficients given from outside are used instead of the camera's own, and only in the model's number; project3, project4 and backProject4 "
         "pass on what they are given, and a homogeneous point of negative scale is turned round together with its Jacobian. A projection is called visible, outside "
         "the image or behind the camera only where the keypoint was found inside or outside the half-open image box, far enough or behind; isKeypointVisible, its version with a margin and isMasked answer for "
         "that box and the mask.",
         ["inputs"], "all points, all intrinsics, all branches of the models",
         "The cameras' tests sample random points and are not built here; external intrinsics and negative scales never occur in them.",
         ["aslam_cv_cameras/src/camera.cc", "aslam_cv_cameras/src/camera-pinhole.cc", "aslam_cv_cameras/src/camera-unified-projection.cc",
          "aslam_cv_cameras/src/camera-3d-lidar.cc", "aslam_cv_cameras/include/aslam/cameras/camera-pinhole-inl.h",
          "aslam_cv_cameras/include/aslam/cameras/camera-3d-lidar-inl.h", "aslam_cv_cameras/include/aslam/cameras/camera-inl.h"],
         [("PinholeCamera::project3Functional", "aslam_cv_cameras/src/camera-pinhole.cc"),
          ("UnifiedProjectionCamera::backProject3", "aslam_cv_cameras/src/camera-unified-projection.cc"), ("Camera::project4", "aslam_cv_cameras/src/camera.cc")],
         "formulas of keypoints, Jacobians and directions extracted on every branch by abstract interpretation, differentiated (chain rule over an opaque distortion) and compared",
         "All three models, with and without external parameters and Jacobians. Rounding, the clamped branch of the unified model and the lidar's wrap-around are left aside."),

    prop("P21", "Visual pipeline: ordered output, bounded queue, no waiter forgotten",
         "Whenever the visual pipeline's queue of completed frame sets or its shutdown flag changes so that a blocked call could proceed, "
         "the change is made under the pipeline's mutex and every thread that may wait for it is notified; every wait re-tests its condition, and a "
         "blocking call refuses only after shutdown. A frame set enters the queue only when complete and when no older one is still in progress; getNext and its "
         "blocking form deliver the oldest set and remove just it, getLatestAndClear and its blocking form deliver the newest, empty the queue and drop "
         "exactly the sets in progress that are not newer. Each image offered is handed to the workers exactly once unless the pipeline was shut down, by the "
         "blocking call only below its limit, and its camera index is in range where it selects a camera's pipeline.",
         ["schedules", "histories"], "all interleavings of callers, workers and shutdown; all contents of both queues",
         "A lost shutdown needs one interleaving; the pipeline's tests are not built here and use one camera rig.",
         ["aslam_cv_pipeline/src/visual-npipeline.cc", "aslam_cv_pipeline/include/aslam/pipeline/visual-npipeline.h"],
         [("VisualNPipeline::shutdown", "aslam_cv_pipeline/src/visual-npipeline.cc"), ("VisualNPipeline::work", "aslam_cv_pipeline/src/visual-npipeline.cc"),
          ("condition_not_full_", "aslam_cv_pipeline/include/aslam/pipeline/visual-npipeline.h")],
         "condition-variable discipline with facts dataflow; origin dataflow of iterators and frame sets (oldest, newest, other)",
         "Which set a frame joins (closest time within the tolerance) and which incomplete sets are given up are left aside.")

    prop("P22", "Copies are complete and independent; equality compares every part",
         "After a visual frame, frame set, camera rig, camera, sensor or distortion is copied (constructed or assigned from another), every field holds what the same field of the original "
         "held, whatever the copy held before and also when an object is assigned to itself; channels, frames of a frame set, cameras of a rig, masks and distortions are cloned and not shared, "
         "and clone() gives a new object of the same class made from this one. "
         "Whenever ==, isEqual or a comparison that leaves the camera out answers yes, each of these was compared equal (rig extrinsics up to a bound): a frame's time, channels, validity and camera, "
         "a frame set's identifier, rig, number of frames and every frame, a rig's number of cameras, every camera and extrinsics, a camera's intrinsics, line delay, image size, compression and distortion, "
         "a sensor's identifier, topic, description and type, a distortion's model and coefficients.",
         ["inputs"], "all contents of the copied and compared objects, all earlier contents of the target",
         "A forgotten field only shows with a value that differs from the default; self-assignment and unset frames are never tried by the tests, and most of these classes are not built here.",
         ["aslam_cv_frames/src/visual-frame.cc", "aslam_cv_frames/src/visual-nframe.cc", "aslam_cv_cameras/src/ncamera.cc", "aslam_cv_cameras/src/camera.cc",
          "aslam_cv_cameras/include/aslam/cameras/camera.h", "aslam_cv_cameras/src/camera-pinhole.cc", "aslam_cv_cameras/src/camera-unified-projection.cc",
          "aslam_cv_cameras/src/camera-3d-lidar.cc", "aslam_cv_cameras/src/distortion.cc", "aslam_cv_cameras/include/aslam/cameras/distortion.h",
          IC + "sensor.h", CC + "src/sensor.cc", IC + "crtp-clone.h"],
         [("VisualNFrame::operator=", "aslam_cv_frames/src/visual-nframe.cc"), ("Sensor::isEqual", CC + "src/sensor.cc"),
          ("Camera::isEqualCameraImpl", "aslam_cv_cameras/src/camera.cc")],
         "abstract interpretation of every copy and comparison: origin of each field of the copy; comparisons made and their outcomes on every way that answers yes",
         "Lists are taken with 0 to 2 elements on either side. Members of an own class are left to that class's own copy or comparison."),

    prop("P24", "Mutexes are acquired without deadlock",
         "Across the whole repository no thread acquires a mutex it already holds, the order in which different mutexes are "
         "acquired while holding others has no cycle, and the same mutex of two different objects is only taken together "
         "without a fixed order. A thread that waits on a condition variable holds no mutex other than the one the wait releases.",
         ["schedules"], "all interleavings of all threads, all call paths that acquire mutexes",
         "A deadlock needs two threads to hold one mutex each at the same instant.",
         [IC + "channel.h", IC + "statistics/statistics.h", IC + "timer.h", CC + "src/thread-pool.cc",
          "aslam_cv_pipeline/src/visual-npipeline.cc"],
         [("ThreadPool", IC + "thread-pool.h"), ("ChannelGroup", IC + "channel.h"),
          ("VisualNPipeline::work", "aslam_cv_pipeline/src/visual-npipeline.cc")],
         "interprocedural lockset dataflow and lock-order graph over the whole repository",
         "Every acquisition in every function with a body; a callee's acquisitions count at each call site.")
    prop("P25", "Public functions test pointer arguments before using them",
         "Every function of the public interface that dereferences a pointer or smart-pointer argument has tested on that path "
         "that it is not null, itself or in what it calls: it fails loudly with a check, or treats null as documented (the "
         "output is optional). No null argument leads to undefined behaviour.",
         ["inputs"], "all arguments, including null for every pointer parameter and every combination",
         "Tests pass valid pointers; each parameter would need its own death test on each path.",
         [IC + "stl-helpers.h", "aslam_cv_cameras/src/camera.cc", "aslam_cv_frames/src/visual-frame.cc",
          "aslam_cv_geometric_vision/src/match-outlier-rejection-twopt.cc", "aslam_cv_detector/src/line-segment-detector.cc"],
         [("Camera::project4", "aslam_cv_cameras/src/camera.cc"), ("LineSegmentDetector::detect",
                                                                   "aslam_cv_detector/src/line-segment-detector.cc"),
          ("eraseIndicesFromVector", IC + "stl-helpers.h")],
         "must-facts dataflow (non-null facts) over every public function with pointer parameters, through inlined callees",
         "Every dereference of a pointer parameter, direct or in a callee, is an obligation.")
    prop("P30", "Results of lookups, casts and optional calls are tested before use",
         "Everywhere in the repository the result of a container search, of a dynamic cast, of locking a weak pointer or of a "
         "call that may return null is dereferenced only on paths on which it was tested to be valid. A missing key or "
         "a wrong dynamic type therefore never leads to undefined behaviour.",
         ["inputs", "histories"], "all keys, contents and dynamic types",
         "The not-found and wrong-type branches are not reached by tests, and undefined behaviour often goes unnoticed.",
         [IC + "channel-declaration.h", CC + "src/timer.cc", CC + "src/statistics.cc",
          "aslam_cv_pipeline/src/visual-npipeline.cc"],
         [("getChannelData", IC + "channel-declaration.h"), ("VisualNPipeline", "aslam_cv_pipeline/src/visual-npipeline.cc")],
         "must-facts dataflow from each lookup to each dereference of its result",
         "Every lookup result and every dereference of it; the thread pool's maps, which share keys by P03, are left to P03.")
    # ------------------------------------------------------------------------------------------------ process-wide state
    prop("P12", "State shared by all threads of the process is synchronised",
         "Statistics, Timing, the track id provider and the visual pipeline keep their mutable state behind their mutex: every "
         "function touches it only while holding that mutex and hands out no reference to it. Every other static or global "
         "variable is constant, atomic, or never changes after its initialisation; a value drawn from an atomic counter comes "
         "from one atomic operation.",
         ["schedules"], "all interleavings of any number of threads using these objects and functions",
         "A race needs two threads in a window of a few instructions; tests use these objects from one thread.",
         [CC + "src/timer.cc", CC + "src/statistics.cc", CC + "src/internal/unique-id.cc",
          "aslam_cv_tracker/include/aslam/tracker/track-manager.h", "aslam_cv_pipeline/src/visual-npipeline.cc"],
         [("Timing", CC + "src/timer.cc"), ("Statistics", CC + "src/statistics.cc"),
          ("ThreadSafeIdProvider", "aslam_cv_tracker/include/aslam/tracker/track-manager.h"),
          ("generateUnique", CC + "src/internal/unique-id.cc")],
         "lockset dataflow over every function that reaches the guarded fields; effect analysis of static variables",
         "All functions of all classes with a mutex of their own (P01 to P08 cover the rest) and all static variables.")
    # ------------------------------------------------------------------------------------------------ values
    prop("P11", "Identifiers are values: comparison, hash, copies and text agree",
         "Identifiers (HashId, Id, UniqueId types) are equal exactly when all their bits are; < and > are one strict total order; "
         "copies, conversions, words, hexadecimal text and messages carry every bit to its place, and a message of another size "
         "or a text of another length is refused; isValid() is false exactly for the default value. Equal values hash equally, "
         "and a generated id contains one atomic step of a process-wide counter. Every ordering used for sorting is a strict "
         "weak order.",
         ["inputs"], "all identifier values and pairs, all messages and strings, all elements being sorted",
         "Tests compare random identifiers, which differ in every word; ties, half-equal values and mirrored pairs do not occur.",
         [IC + "hash-id.h", IC + "unique-id.h", CC + "src/internal/unique-id.cc", IC + "eigen-hash.h", IC + "occupancy-grid.h",
          "aslam_cv_matcher/src/gyro-two-frame-matcher.cc"],
         [("operator <", IC + "hash-id.h"), ("serialize", IC + "unique-id.h"),
          ("generateUnique128BitHash", CC + "src/internal/unique-id.cc"), ("AsmallerB_XoverY",
                                                                          "aslam_cv_detector/src/lsd/lsd-opencv.cc")],
         "abstract interpretation over the finite domain of word orders: decision tables of operators, transfer of words",
         "All operators, copies, conversions and hashes of all identifier classes, every comparator given to a sorting algorithm.")
    # ------------------------------------------------------------------------------------------------ serialization
    ser = [IC + "channel-serialization.h", CC + "src/channel-serialization.cc"]
    prop("P09", "Deserializing a channel never reads or writes out of bounds",
         "Whatever bytes and size the input has, the functions that deserialize a scalar, an Eigen matrix, a vector of matrices "
         "or an image read only within the given size and store only within the memory of the value, whose size is checked "
         "against the header at that point. A container is sized by a number from the input only after that number was "
         "checked against the size of the input.",
         ["inputs"], "all input buffers of all sizes, including truncated, oversized and corrupted ones",
         "Tests deserialize what was just serialized; corrupt headers are unbounded in number and overruns often go unnoticed.",
         ser, [("deSerializeFromBuffer", ser[0]), ("HeaderInformation::deSerializeFromBuffer", ser[1])],
         "linear must-facts dataflow (polyhedral inequalities) at every raw read and store of every instantiation",
         "Every memcpy and element access that reads the input is an obligation on all paths; assumes no 64-bit wrap of sizes.")
    prop("P10", "Channel serialization: writer and reader agree",
         "For every channel value type the serializer and the deserializer, for strings and buffers, transport the same items in "
         "the same order and width without gaps: the header describes the value that follows, the data is all of the value's "
         "data, every element of a vector is included, and the size allocated and reported is exactly what was written. "
         "The depth stored identifies the scalar type; scalars written as text keep all their digits.",
         ["inputs"], "all values of every channel value type: all shapes, depths, channel counts, vector lengths",
         "Tests round-trip a few shapes; transposed, empty, multi-channel or mixed-size values take other paths.",
         ser, [("serializeToBuffer", ser[0]), ("serializeToString", ser[0]), ("makeHeaderInformation", ser[0])],
         "linear must-facts dataflow with ghost cursors, and comparison of the transported item sequences",
         "Every copy, header field, allocation and success exit of every instantiation is an obligation.")
    # ------------------------------------------------------------------------------------------------ containers
    og = IC + "occupancy-grid-inl.h"
    prop("P13", "The occupancy grid counts its points exactly and keeps the heaviest",
         "However points are added, replaced and removed, the number of points reported is the total over all cells; a removal "
         "returns the number of points it removed, or ends at its limit, and never aborts on a limit it accepts. Every point inside the "
         "image lies in exactly the cell of its row and column, anything outside is refused, and operations on the whole grid "
         "visit every cell. A point that is replaced or removed to make room is the lightest of its cell and is replaced only by a heavier one.",
         ["inputs", "histories"], "all sequences of operations, all points, weights, image and cell sizes",
         "There are no tests of the grid; counts drift only after particular mixes of operations.",
         [og, IC + "occupancy-grid.h"],
         [("addPointOrReplaceWeakestNearestPoints", og), ("removeWeightedPointsFromOverfullCell", og), ("inputToGridCoordinates", og)],
         "linear must-facts dataflow with a ghost total over all cells; loop coverage; comparator direction analysis",
         "All public operations of every instantiation; the total is tracked through helpers, aliases of cells and local lists.")
    sh, shi = IC + "stl-helpers.h", IC + "stl-helpers-inl.h"
    prop("P14", "List helpers keep, drop, draw and average exactly the right elements",
         "Erasing by index leaves exactly the elements not listed, in their order, for lists and for rows or columns of matrices; an empty "
         "list of indices changes nothing, repeated or out-of-range indices and an unexpected element count are refused. Keeping N elements keeps "
         "the first N by the given comparator, runs the action once on each removed element before it goes, and returns the number kept; drawing "
         "N returns N different elements out of all of the input (all if fewer), with a fixed seed exactly when asked. Mean, deviation and median "
         "use every element once and refuse an empty range; counting a nested list and copying matrix columns miss nothing.",
         ["inputs"], "all lists, index lists, counts, comparators and matrices of every instantiated type",
         "The tests erase one list, draw a few times, and never keep N, average or erase from a matrix.",
         [sh, shi], [("eraseIndicesFromVector", sh), ("eraseIndicesFromContainer", shi), ("keepOnlyNSortedElements", sh),
                     ("drawNRandomElements", sh)],
         "linear must-facts dataflow with iterators as positions and ghosts for rounds, kept and removed elements",
         "Every instantiation; block starts, lengths, destinations and ends are linear obligations over the rounds of the loop.")
    fd, fdi = IC + "feature-descriptor-ref.h", IC + "feature-descriptor-ref-inl.h"
    du, ham = IC + "descriptor-utils.h", IC + "hamming.h"
    prop("P15", "Binary descriptors: bits, equality, distances and means use every bit",
         "Reading, setting and flipping bit i all use bit i mod 8 of byte i/8 and refuse bits beyond the size; random flips hit different "
         "bits. Descriptors compare equal only if sizes and all bytes agree; the distance counts every differing bit of both once and reads "
         "nothing outside them, whatever size and alignment. Means and deviations use every bit of every descriptor, refuse descriptors of "
         "different sizes and take the majority; the descriptor closest to the others is the one with the smallest sum of distances to all.",
         ["inputs"], "all descriptors of every size, alignment and content, all sets of them",
         "The tests use 48-byte descriptors that are all zero but for a few bits; sizes that are no multiple of 16 and many set bits are not tried.",
         [fd, fdi, du, ham, IC + "hamming-inl.h"], [("GetBit", fd), ("DescriptorMean", fdi), ("Hamming::evaluate", ham),
                                                    ("getIndexOfDescriptorClosestToMedian", du)],
         "abstract interpretation of the bit operations and of the vector code on symbolic bits; loop-coverage and linear must-facts dataflow",
         "Every loop over bits, descriptors and pairs, every counter, threshold and comparison of every instantiation is an obligation.")
    prop("P16", "Memory owned through raw pointers is freed exactly once",
         "A descriptor (or matrix adapter) that owns its memory frees it exactly once, when it is released, reallocated, assigned, given other "
         "data or destroyed; one that does not own its memory never frees it, and no pointer to freed memory is kept. A copy of an owner owns a "
         "full copy of its bytes, and the size reported is that of the block and the one asked for. Everywhere else the result of new reaches a smart pointer, an "
         "owner or the caller, or is freed on every path, and objects that free memory cannot be copied member by member.",
         ["histories"], "all sequences of construction, copy, assignment, allocation, release and destruction, owning or not",
         "Double frees and leaks show only in particular sequences of copies between owners and views; the tests make few.",
         [fd, fdi, sh], [("FeatureDescriptorRefBase", fd), ("FeatureDescriptorRef::Release", fdi), ("OneDimensionAdapter", sh)],
         "abstract interpretation over an abstract heap: every member function on every combination of owning and not owning objects; "
         "must-pass dataflow for every other new expression",
         "All executions of each loop-free member function over the abstract heap; by induction over calls this covers every sequence.")

