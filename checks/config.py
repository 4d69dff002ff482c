"""Build variant and description of each property's check."""
PROPERTIES = {
    "P13": {"variant": "asan", "technique": "property-based testing of every sequence class against closed forms and linear search, under AddressSanitizer"},
    "P14": {"variant": "opt", "technique": "property-based testing against long-double vector geometry, round trips, grid-vs-scalar differential"},
    "P15": {"variant": "opt", "technique": "model-based property testing of operation histories against long-double rotations"},
}
PROPERTIES["P16"] = {"variant": "opt", "technique": "property-based testing of every element-wise function and operand combination against long double scalar functions, round trips"}
PROPERTIES["P17"] = {"variant": "opt", "technique": "model-based property testing of draw/seed histories (differential between scalar, vector, matrix draws) and statistical acceptance tests"}
NOT_APPLICABLE = {}
PROPERTIES["P11"] = {"variant": "asan", "technique": "property-based testing of generated grids against a long double reference interpolator, shape invariants, element-wise differentials, edit histories"}
PROPERTIES["P12"] = {"variant": "asan", "technique": "property-based differential testing of the fast grids against the general grid and a long double reference surface"}
PROPERTIES["P18"] = {"variant": "opt", "technique": "property-based testing of every profile model against long double formulas and reference tables, metamorphic single-versus-batch evaluation"}
PROPERTIES["P19"] = {"variant": "asan", "technique": "property-based testing of boundary models against long double formulas, reference tables and perpendicularity to the reported heights"}
PROPERTIES["P20"] = {"variant": "asan", "technique": "property-based testing of every loss, absorption, scattering and noise model against long double published formulas and limits, metamorphic single-versus-batch evaluation"}
PROPERTIES["P22"] = {"variant": "opt", "technique": "property-based testing of every beam pattern against long double array theory, closed-form and numerical sphere averages, and rotations of array and arrival together"}
PROPERTIES["P23"] = {"variant": "opt", "technique": "property-based testing of windows and pulse trains against long double formulas, metamorphic basebanding relations, schedule histories against a list model"}
PROPERTIES["P21"] = {"variant": "asan", "technique": "property-based testing with generated netCDF and text files and windows: node-by-node comparison with the file, invariants of gap filling, write/read round trips, under AddressSanitizer"}
PROPERTIES["P24"] = {"variant": "tsan", "technique": "stateful property-based testing of generated multi-threaded histories (submissions, aborts, throwing and nested tasks, shutdown at random moments) with execution records as the oracle, hang detection, under ThreadSanitizer"}
PROPERTIES["P25"] = {"variant": "tsan", "technique": "model-based property testing of operation histories against maps and long double geometry, concurrent histories with membership and consistency oracles under ThreadSanitizer"}
PROPERTIES["P26"] = {"variant": "asan", "technique": "model-based property testing of histories of added, removed, duplicate and incomplete sensors against a model of the pairing rules, under AddressSanitizer"}
PROPERTIES["P01"] = {"variant": "opt", "technique": "property-based testing of wavefronts against an independent long double ray integration, and of the ray invariants"}
PROPERTIES["P02"] = {"variant": "opt", "technique": "property-based testing of reflected wavefronts and contact callbacks against independently traced rays and exact straight lines over sloped bottoms"}
PROPERTIES["P03"] = {"variant": "opt", "technique": "property-based testing of reported eigenrays against the paths of the image method (exact straight lines between spheres), in both directions"}
PROPERTIES["P04"] = {"variant": "opt", "technique": "property-based metamorphic testing of reported losses (with and without boundary and volume losses) against terms of exactly traced rays, and of spreading against the area of exact ray tubes"}
PROPERTIES["P05"] = {"variant": "opt", "technique": "metamorphic property-based testing of eigenrays: scenarios rotated, mirrored, with other targets, frequencies and tables, run twice, and with source and target exchanged"}
PROPERTIES["P07"] = {"variant": "asan", "technique": "model-based property testing of histories of additions and totals against long double sums, write/read round trips of files, dead reckoning against first-order geometry of each path"}
PROPERTIES["P08"] = {"variant": "asan", "technique": "model-based property testing of histories of additions, searches checked patch by patch against plane geometry around the search patch, write/read round trips"}
PROPERTIES["P09"] = {"variant": "asan", "technique": "property-based testing of pairs of patches against the overlap of two Gaussians in long double matrices, metamorphic relations, histories against a list model, the background task against a model of its loops"}
PROPERTIES["P10"] = {"variant": "asan", "technique": "property-based testing of generated contributions, channels, schedules and hosts against long double sums of Gaussians with beams that depend on all they are told, write/read round trips"}
PROPERTIES["P06"] = {"variant": "opt", "technique": "property-based testing of reported eigenverbs against the contacts of independently traced rays with boundaries and volume layers, and the size of exact ray tubes"}
PROPERTIES["P27"] = {"variant": "opt", "technique": "model-based property testing of histories of sensor moves under real background threads, against a model of the thresholds and direct runs of the propagation"}
PROPERTIES["P28"] = {"variant": "opt", "python": "P28_python.py", "technique": "property-based testing of the Python reference solutions against closed forms and quadrature, and of the readers against generated files written by the library"}
