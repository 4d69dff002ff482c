HEAD = """# Verification of USML by property-based testing

Twenty-eight properties (`properties.jsonl`), each decided by generated-input search against
an explicit oracle. All of them can be addressed by this family of technique, so
`not_applicable` is empty; what each check does *not* cover is said in its section.
This file is written by `tools/gen_design.py` (text in `tools/design_text.py`; the laws are
read from the checks, so that they stay in step).

## Engine

`checks/pbt.h`, `checks/pbt_main.cc` (C++) and `checks/pbt.py` (Python, for P28). A property
has a set of *laws*. A law draws its input from a sequence of choices - integers, reals with
special values mixed in, picks, flips - runs the real library code, compiled by `run.py` from
/repo's working tree into `build/` (content hashed, so any change of a source is seen), and
compares with its oracle.

* Each case has its own seed, derived from `VERIF_SEED`, the law and the case number. A failing
  case is **shrunk** by deleting and lowering choices while it fails with the same key, and the
  resulting choice sequence is the **replay file** (`run.py Pxx --replay FILE`).
* Laws run in forked workers on all cores. A crash, a sanitizer report or a hang is
  attributed to the case that ran, replayed, shrunk and reported like any other violation.
* A failure that does not come back when its case is replayed (possible for laws with
  threads) is tried again several times; for threads the history is what is replayed.
* Every check is a named *key*; a violation is identified by `law/key`, which is what
  `known_findings.txt` refers to. A known finding only silences its own key: the same law goes
  on to look for others.
* A case counts as non-trivial by the rule at the end of each law's text. Evidence holds the
  numbers generated, distinct, non-trivial and discarded, the label histogram, and samples.
* Build variants: `opt` (as the repository builds: -O3 -ffast-math style flags of its own
  CMake file), `asan` (AddressSanitizer, libstdc++ assertions) and `tsan` (ThreadSanitizer), per
  property in `checks/config.py`.
* Coverage-guided fuzzing was considered for the readers (P21, P28). It was not used: the files are
  netCDF/HDF5, parsed by an installed library that cannot be instrumented here, so that
  coverage would guide only the thin layer above it; a structured generator of valid
  files reaches that layer in each case.

Oracles are independent of the code under test: `checks/raytrace.h` integrates rays in long
double with its own equations, root search for contacts and variational equations for
ray tubes; `checks/gridref.h` is a long double interpolator written from the documentation;
models of histories are plain lists and maps. Tolerances were calibrated by running
each law over several seeds at thorough scale with the `CAL` macro (`checks/calib.h`), which
prints the worst errors relative to the tolerance, and then leaving a margin; they are
written next to each comparison. Where an approximation of the library (finite steps, finite
fans) bounds what can be expected, the tolerance is scaled with the term that
causes it (steps, fan spacings, curvature), so that it stays tight where the library is exact.

Why this reaches what the tests cannot: the repository's tests run about one scenario per
feature, mostly at one latitude, with fans that are not closed or sources placed at round numbers, and
several only write files for a person to look at. The laws draw places all over the globe (date
line, poles, equator), falling and uneven axes, sizes of one, every combination of model
options, and histories, and compare every output with an exact value.

Cost: quick checks take 2 to 70 s each on 8 cores (plus the build of the library, once per
variant, about a minute), thorough ones 2 to 15 minutes.

## Properties
"""

NOTES = dict(
P01="""Oracle: the ray equations integrated in long double with steps far finer than those of the
library, plus the invariants (ray parameter, normalisation, vertical plane). Tolerances grow with
the third-order error of the library's integrator, estimated from the gradients along the
ray. `field_rays` does the same in Cartesian coordinates for water that varies in every direction. Bounds:
smooth fields; up to the first contact (P02 goes on from there).""",
P02="""Oracle: exact rays with contacts found by root search; straight lines in three dimensions over
slopes; the mirror law at each contact over hills. Limits: contacts within 1.5-2 degrees of grazing,
where a finite step may miss the boundary altogether; over hills the position after the contact
is only compared away from grazing. Sloped bottoms meet the library's first-order estimate of the
contact, hence the minimum water depth per step. A source outside of the water is left out
(the tests pin that it is reflected at once).""",
P03="""Two directions: each path of the oracle that the fan resolves must be reported exactly once, and
each reported eigenray must be on such a path. A path is *resolved* when its launch angle is inside the
fan and more than a cell away from rays with other contacts, vertices or folds. Limits: targets
right above or below the source (a separate branch of the code which drops azimuths) are not covered;
the fold counter of the library may be early or late by a step near a fold, and then the
count is not compared. Time tolerance 3 times the second-order shift in non-uniform fans.""",
P04="""Losses are compared as differences between runs with and without a loss mechanism, so that each
term stands alone, and spreading is compared with the area of an infinitesimal ray tube. The
Gaussian model lacks the factor c_target/c_source of the classic one; the check accepts either
form. Beams that are as wide as many cells are not compared with the tube (they are meant to be
smoother); P05 relates them to each other instead.""",
P05="""Metamorphic. Reordering, removing or adding targets (also one right above the source) and a second
run must agree bit for bit; other viewpoints within 0.01 of a cell or step. Gaussian sums over beams
stop depending on the first frequency and on the order of beams, hence 5 dB for an added lower frequency (well
lit direct paths only), 1.5 dB / 3 dB for mirrored fans; classic losses are exact, 1 dB with
horizontal gradients. `reciprocal` uses paths of the exact tracer.""",
P06="""Exactly one eigenverb per contact, sizes from the tube of the ray. Limits: absorption may be counted up
to the step before the contact; layer crossings within one step come in the order of layers;
which of VOLUME_UPPER/LOWER stands for which direction is taken from the code (the
documentation does not tell); hills must be resolved by the step.""",
P07="""Model: lists of added eigenrays; totals in long double. Dead reckoning is documented as first
order, so the tolerance is the second-order term of the move. Not covered: `find_eigenrays(0)` returns the
first target when all identifiers are zero (undocumented).""",
P08="""Patches clearly inside or outside (by 10 percent and more) of the documented diamond are decided by plane geometry.
Three known findings of the search stay (the polygon is open and swapped); each is a key
of its own, chosen by the geometry of the case, so other misses still count.""",
P09="""Oracle: convolution of the two Gaussians with 2x2 matrices in long double. Receivers on the equator
are avoided (bearing, known finding of P14), bearings are not compared under 6 m. `generator`
runs the real background task with a stand-in pair.""",
P10="""Oracle: sum of Gaussians in long double with beam patterns that depend on everything they are told
(direction, frequency, orientation, steering), so that mixing up any argument shows. The
envelope peaks one pulse length after the arrival, as documented in the code.""",
P11="""Oracle: long double reference of each method and mixture of methods per axis, straight lines, shape
(no overshoot, monotone), and edits.""",
P12="""Differential against the general grid, and a long double reference of the bicubic surface as
documented.""",
P13="""Closed forms and linear search; single precision round off of `build_best` (0.2 percent of a step) is
part of its documented behaviour.""",
P14="""Long double Cartesian vectors. `distance2` cancels to about 0.05 m^2 on the earth, which the
tolerance allows.""",
P15="""Model: yaw/pitch/roll triples and rotation matrices in long double; at gimbal lock only the rotation is compared.""",
P16="""Long double scalar functions; 12 roundings, scaled with the conditioning of each function.""",
P17="""Replays one number at a time; statistics with false alarm chances below 1e-13 per case.""",
P18="""Documented formulas in long double; gradients against analytic derivatives (tables: those of the reference table).""",
P19="""Formulas; perpendicularity of the normal by differences of the reported heights.""",
P20="""Published formulas in long double and physical limits.""",
P21="""Files are generated with known contents; every node of a loaded window is compared with the node stored for its
place. Limits: the weights of gap filling are not asserted (the tests pin odd ones), only that values stay within those
of their neighbours. Known finding: axes of bottom provinces.""",
P22="""Long double array theory, numerical averages over the sphere. Pinned by the tests and accepted: null
depth of `bp_trig`, directivity of `bp_solid` as the fraction of angles, sigma of `bp_gaussian` as full width.""",
P23="""Formulas of windows and of the modulation's phase integral.""",
P24="""Real threads; the oracle is the record that each task writes. Hangs are violations (40 s for cases
that take milliseconds). ThreadSanitizer watches all of it.""",
P25="""Model based (map, tree of platforms in long double), sequential and concurrent, under ThreadSanitizer.""",
P26="""Model of the documented pairing rules; any order of the same sensors gives the same pairs.""",
P27="""Histories under the library's own threads: after each settled step the pairs must hold the picture of a
direct propagation run with the same inputs, and computations start exactly when the model of the thresholds
says so. Limits: one thread updates sensors; sensors are not removed while their tasks run (the
tasks hold a raw pointer); the number of volume layers stays the same within a history; oceans are
replaced only when idle; beams are omnidirectional; moves exactly at a threshold are avoided. Between
the last look at its abort flag and its delivery a superseded reverberation task can still win; the checks make the first ones
heavy so that this window is never met.""",
P28="""Closed forms and a quadrature without the singularity at the vertex for the Pedersen ocean; files written by
the library itself (`checks/P28_writer.cc`) for the readers. Launch angle exactly 0 is left out; the
spherical model is accurate to 0.3 m / 2e-4 s; the cell with the maximum range belongs to neither path.""",
)

MIDDLE = """## Planted bugs

`seeded/<id>` (made with `tools/seed_add.py`, tried with `tools/seed_try.sh`). Each was
written from the text of the property and the code, builds, passes the stable tests, and its
demonstration is quiet without it. "Found by" is the quick check with seed 1 and the law/key it
reported.
"""

TAIL = """
Checks that were strengthened because they missed a planted bug: P02 (`curved_contacts`; slopes
alone have the same normal everywhere), P05 (`added-low-frequency`, and `one-more-target`, which
often puts a target right above the source), P28 (limits that lie exactly on a node of the file). Smaller trial changes
also led to `schedules` and moves across the date line with normalised longitudes (P27) and to the state of the
sensors in `generator` (P10), to losses that vary with place (P02) and to `field_rays`, as horizontal
gradients were only tested through the file formats (P01). Bugs that were found by the
repository's own tests were dropped or replaced.

## Defects found in the repository

`known_findings.txt` lists them: about seventy repaired by `fix:` commits, and five that stay:
the bearing from starts on the equator (P14), the axes of bottom provinces (P21), and the three of the eigenverb
search (P08). Each of the five is pinned by values expected in the repository's tests, so
they cannot be repaired with the tests unedited.

Other doubtful places that are outside of what the properties state, left as they are:
`eigenrays` `targetID()` combines its tests with `&&` where `||` seems meant; the documentation of the search
scale of eigenverbs (3.0) and its default (1.5) differ; `biverb_collection::write_netcdf` takes a
shared lock twice; `wavefront_notifier` and the steering of sensor pairs are not locked; `rcv_steering` of
an unknown key; `transmit_mode` without beams; fold detection in `wave_queue` counts
spurious folds next to vertices.

## False alarms met while building, and what was done

Each was worked out against the exact tracer before the check was changed:
paths whose stencil straddles another family of rays (P03: resolved paths only), losses of beams at the
edges of fans (P04, P05: inner cells only), double contacts near grazing (P02, P06: stop there), bearings of
points closer than round off (P09), searches at the rim of the diamond (P08: a margin), several runs under
load that delivered pictures late (P27: waits for events, not times), and the widths of Gaussian beams
at shadow edges. Nothing of this is listed as a known finding.
"""
