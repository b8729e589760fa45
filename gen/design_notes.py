HOW = """
# Static verification of aslam_cv2

(Written by `gen/design.py` from `gen/props_list.py`, `gen/design_notes.py`, `known-findings.txt`, `seeded/` and the last evidence.)

## How it works

Everything is decided from the source in `/repo`; nothing of it is run, concretely or symbolically, and no path goes to a solver.

* `tool/extract.cpp` (clang 18 LibTooling, built by `setup.sh`) parses translation units of `/repo` and writes, for every function
  of the repository, its clang CFG with all statements, the records, fields, enums and the class hierarchy as JSON.
  Third-party headers missing here (minkindr, eigen_checks, ...) are replaced by declaration-only stand-ins in `stubs/`;
  templates and headers without a user are instantiated by `drivers/*.cc` (these are parsed only).
* `sa/ir.py` loads that, `sa/graph.py` builds an interprocedural event graph per entry point (calls into the repository, lambdas
  and callbacks are inlined, exits through `CHECK` failures are cut off) and gives every expression a canonical term, so that
  extracted helpers, renamed locals, reordered statements or rewritten loops yield the same terms.
* Deciders on that graph: `sa/facts.py` (forward must-facts: null-ness, flags, difference bounds, implications),
  `sa/bounds.py` (linear facts: affine equalities and inequalities over terms, kept at joins if they hold on both sides),
  `sa/locks.py` (locksets), `sa/boolflow.py` (bounded disjunctive flow of boolean state), `sa/finite.py` (finite-domain state),
  `sa/nullable.py`, `sa/conj.py` (loops over containers, what a conjunction of comparisons covers), `sa/containers.py` (sizes and
  ghost counters of containers), `sa/absint.py` (abstract interpreter over a finite domain of orderings and bit positions).
* `sa/rules/*.py` hold the rules; `sa/registry.py` maps properties to them. `./check.sh P01` decides one property.
  Rules are anchored on public operations and on the *role* a field plays (the mutex, the list the public size query reports, ...),
  not on names of locals, statement order or source shape.
* A rule whose anchor (class, public operation) is gone, or which finds fewer instances than it must, ends with exit 3, never
  with a silent pass. A pattern the analysis cannot decide is counted as a note in the evidence and is no alarm.
* `selftest/run.py` applies several hundred edits (breaking ones and behaviour-keeping ones) to scratch copies and compares the
  verdicts; `selftest/mkseed.py` creates and confirms the planted changes in `seeded/`.

The rules do not bound input sizes, thread counts or histories, so quick and thorough decide the same obligations; thorough inlines
deeper (see `sa/ir.py`).

What is built by `/opt/vp/build.sh` is only part of the repository (aslam_cv_common, aslam_cv_detector, the distortion models,
target-base and the header-only parts). The other sources do not build without the missing dependencies but parse with the
stand-ins, so the checks cover them as well.

General assumptions: library functions behave as documented; two objects of one class are not confused unless their terms are equal
(aliasing); virtual calls with several overriders and calls through function pointers are not followed; `CHECK` macros end the
program on failure (the build has no NDEBUG; debug-only checks count as checks because the shipped build keeps them).
"""

TAIL = """
## What is out of reach

Numeric accuracy (reprojection, undistortion maps, triangulation, PnP, Jacobians against finite differences) quantifies over real-valued
inputs and needs error analysis of the formulae; no sound static argument in reach decides it, and the properties above stay away from it.
"""

NOTES = {
 "P01": ["The worker body is analysed as an entry point of its own; start-up code in the constructor counts as shared from the moment the first thread is started."],
 "P05": ["Bookkeeping fields are recognised by what the wait conditions of the lock operations read; each operation's net effect is decided by an affine ghost of every counter."],
 "P08": ["An early form of the rule wanted an explicit size comparison before the loop; comparing both directions is just as right, so the rule now asks what follows from the facts on the path that answers true."],
 "P30": ["A search in a container whose key was just inserted, and `std::min_element` over a container known to be non-empty, are excluded (false alarms of early forms).",
         "Smart-pointer members set by constructors only from tested values are not followed; they are P25's matter."],
 "P24": ["`std::adopt_lock` and `std::defer_lock` guards are modelled; an early form counted an adopted lock twice."],
 "P25": ["The list of public operations and their optional (documented nullable) outputs is in `sa/api.txt`, generated by `gen/api.py`."],
 "P12": ["`thread_local` and function-local `static const` variables are exempt; elements of static arrays count as the array."],
 "P11": ["Decided by an abstract interpreter whose domain is finite: for two values every word pair is less, equal or greater (all combinations), and bits are tracked by position. Comparators that contain arithmetic or opaque calls are noted, not decided; NaN is left aside.",
         "Early false alarms came from unmodelled `std::vector::resize`/protobuf `Clear`; both are modelled now. `^` and `|` on disjoint bits are treated alike."],
 "P09": ["Sums of sizes are assumed not to wrap at 64 bits; products are treated exactly where a CHECK bounds their factors (the code compares by division), and otherwise as opaque terms."],
 "P10": ["Both sides are reduced to sequences of (item, width) and compared; agreement is not value round-trip of the text form (the C library's conversion is assumed right for the format's digits)."],
 "P13": ["The total is a ghost counter: every insertion, erasure, swap and assignment of a cell changes it by a linear term; the public count must equal it. Reported forms that are equal after loop closure are recognised (sum over rows of sum over columns)."],
 "P14": ["Positions of iterators are linear terms; the erased gaps are decided as facts over the number of rounds. `pop_back` loops are recognised as cuts."],
 "P15": ["Bits of the vector code are symbols: each of the 128 bits of a word's difference must reach the result once, no lane may overflow. `pairwiseEuclidianDistances` (norm in bytes) is left out.",
         "The NEON branch of `hamming-inl.h` is not compiled on this platform and not analysed."],
 "P18": ["Matrices: element writes are followed to the loops over rows and columns; the value's term must be the sequence entry the row-major order puts there, either by index or by an iterator that starts before the loop and moves exactly once per round after its use; sizes are compared on every path (facts).",
         "Readers: each function is run abstractly with library calls that may raise; the handlers of the enclosing try statements are taken from the compiler's tree. An outcome is a value, an exception or an abort; `true` needs the stored value to be the node's entry under that key.",
         "Sensors: serialize gives key -> field, deserialize key -> field; the two tables must agree, and the result of the derived class' reader must be in the result."],
 "P19": ["Vectors and matrices of known size are cells; running a model abstractly gives, per branch, a closed formula for every entry of the point and of the Jacobian (sums, products, roots, powers, tan, atan). `sa/algebra.py` brings the difference of two formulas to a normal form over the field generated by roots, arc tangents and half angles (R^2 = argument, S^2 + C^2 = 1): it is zero or it is not. Nothing is sampled and no solver is asked.",
         "A value approximated on one side of a comparison may keep the Jacobian of the other side (equidistant: scaling 1 below 1e-8), but only if nothing else distinguishes the two branches. Parameter Jacobians need one branch of the value that fits the conditions.",
         "Iterative undistortion: each call of the model gets a fresh point and a fresh Jacobian; the next iterate must satisfy J dx = y - distort(x) exactly, whatever form the step is solved in. That the iteration converges is not decided (it need not, for strong distortion).",
         "Two defects found: the equidistant model's Jacobian was zero at the centre, the fisheye model's parameter Jacobian near the centre left the point out."],
 "P20": ["As P19, one level up: the distortion model is an opaque function; each call gives a fresh point D with a fresh Jacobian J (and P by the coefficients), so that derivatives follow from the chain rule and hold for every model. `backProject3` is composed with the projection: what it undistorts must equal D, undistorting gives what was distorted, and the result must be parallel to the point with positive sign.",
         "A difference of formulas is first evaluated at two fixed choices of its symbols (60 digits, roots positive): not zero refutes equality at once, otherwise the normal form decides; where that exceeds 5 s the two zeros stand. The bound of a maximum (unified model) and the wrapped column (lidar) are not entered.",
         "The loops of the vectorized versions are not decided (only a note). Two defects found: the lidar's external intrinsics were ignored, project4's Jacobian for negative scale had the wrong sign."],
 "P21": ["The condition-variable discipline of P02 is applied to the pipeline's own condition variables only. What is delivered is decided by an origin dataflow over iterators into the two ordered queues: first, last, after the first, other; a set that leaves a queue must be the one the call promises and no other may leave with it.",
         "Two defects found: `shutdown()` changed the flag without the mutex, so a thread between its test and its wait slept for ever; `work` accepted one camera index too many."],
 "P22": ["Both objects are opaque; each way through a copy gives every field's value as a term over the original's fields. Smart pointers are null or not, lists have 0 to 2 elements (2 elements tell the index from a constant and the last from the first; sizes 1 against 2 show that the number is compared). The other object is tried as a different one and as this one.",
         "A comparison of sub-objects forks into equal and different and is remembered with the field it belongs to; every way that answers yes must have `equal` and no `different` for every field that counts. A distance below a bound counts as equal. What may differ by design is listed in `FREE` (a frame's identifier and raw camera, a camera's mask, a rig's covariance).",
         "One defect found: `VisualNFrame::operator=` emptied the object that was assigned to itself. Whether the members of library type (Eigen, OpenCV, std) copy rightly is taken for granted; `cv::Mat` images inside channels are cloned by P07's rules."],
 "P17": ["Numbers are exact and fields symbolic: each way through `Accumulator::Add` gives every field's new value as a linear term over old fields, the sample and the window's element, compared with the term the quantity requires. The place in the window must be (samples so far) mod window.",
         "Rounding, overflow of the `int` counters after 2^31 samples and the system clock (it may be set back) are left aside. A read by tag creates the tag by design."],
}
