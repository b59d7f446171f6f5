#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json (run it after editing)."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
PROPS = []


def p(id, title, statement, over, qtext, why, mech, technique=None, note=None, na=None, state=()):
    files = sorted({m[1].split(":")[0] for m in mech})
    PROPS.append({"id": id, "title": title, "statement": statement, "over": over, "qtext": qtext, "why": why, "files": files,
                  "mech": mech, "technique": technique, "note": note, "na": na, "state": state})


REAL = "Formulas are compared as real-number expressions (value numbering over the sources' control flow graphs): rounding is not modelled. "
TRUST = "Trusts clang's AST/CFG and the library models written in mc/interp.py. "

p("C01", "Reported errors reach the caller as exceptions",
  "Every error that the program detects and reports by throwing, while a model is built or while histories are simulated, reaches the caller of the "
  "public interface (or the top of the program) as that exception. It is never turned into immediate termination by a function that promises not to "
  "throw, never swallowed on the way, and never lost because it happened in a worker thread.",
  ["inputs", "configurations"], "every throw site of the program and every call path that reaches it",
  "The tests exercise a handful of error messages through direct calls; which of the many call paths pass through a no-throw function is a whole-program question.",
  [("exception specifications", "src/TransportMethod.hpp"), ("worker results are collected with get", "src/FixedSource.cpp"), ("throw sites", "src/World.cpp")],
  "interprocedural exception-escape analysis over the resolved call graph",
  "Exact for the throw expressions of the project's own sources over the resolved call graph (virtual calls to all overriders, lambdas where they are handed out); exceptions raised by library functions are out of scope. " + TRUST)

p("C02", "Schema and program agree on the input document",
  "Everything the program reads from an input document is declared by the input schema at that place, and every alternative the schema offers at a choice "
  "(problem type, transport method, surface, source distribution, tally bin, cross section, perturbation) is either built as requested or rejected with an exception. "
  "No alternative is ever silently built as a different one.",
  ["inputs", "configurations"], "every document accepted by the schema",
  "Tests use a few documents; most alternatives of the schema are never instantiated by them.",
  [("schema", "test/minimc.xsd"), ("factories", "src/Driver.cpp"), ("factories", "src/Source.cpp"), ("factories", "src/Bins.cpp"), ("factories", "src/CSGSurface.cpp")],
  "abstract interpretation of document paths against the parsed schema, dispatch exhaustiveness",
  "Decides the path/name agreement and the dispatch tables, not the numeric meaning of the values. " + TRUST)

p("C03", "Input is validated before it is used",
  "No part of a model is built from an input document before the whole document has been read and validated against the schema. A document that cannot be read, "
  "is not well formed, or violates the schema is rejected with an exception, whichever way the model is constructed.",
  ["inputs"], "every input document and every public way of constructing a model",
  "Tests try one or two invalid documents; that no path to the model bypasses validation is a statement about all paths.",
  [("validation", "src/XMLDocument.cpp"), ("entry", "src/Driver.cpp")],
  "must-pass-through analysis on control flow graphs plus who-may-call rule",
  "Decides ordering and completeness of the validation steps; the validator itself (Xerces) is trusted. " + TRUST)

p("C04", "References by name resolve or raise",
  "Every reference by name inside an input (nuclide of a material, material or surface of a cell, surface of a tally, nuclide of a perturbation, perturbation of a sensitivity) is resolved to the "
  "object defined under exactly that name, or an exception is thrown. The result of a failed search is never dereferenced, in every build mode.",
  ["inputs", "configurations"], "every input document and every search by name",
  "Tests only contain documents whose names resolve.",
  [("lookups", "src/World.cpp"), ("lookups", "src/Cell.cpp"), ("lookups", "src/Material.cpp")],
  "typestate analysis of search results (checked before use on every path)",
  "Decides that each search compares names exactly and that its not-found result is tested before use on every path and ends in a throw. " + TRUST)

p("C05", "XML library resources are released exactly once",
  "Every string obtained from the XML library is returned to it with the library's own release function exactly once on every path, and the XML subsystem is initialised before its first use and "
  "terminated only after its last use, also when validation fails.",
  ["inputs"], "every control path of reading a document, error paths included",
  "A mismatched or missing release has no visible effect in the tests.",
  [("initialiser and transcoding", "src/XMLDocument.cpp")],
  "ownership/typestate analysis of acquire-release pairs, member destruction order",
  "Decides pairing and order for the library's transcode/initialise/terminate functions on all paths including exceptional ones (through destructors). " + TRUST)

p("C06", "Concurrent workers share no mutable state",
  "While histories are simulated, no code that a worker thread can execute writes to any object that another worker can reach, except for the shared history counter which is only accessed atomically. "
  "In particular the geometry, the materials, the nuclear data, the source and the tally definitions stay unchanged from the start to the end of a solve.",
  ["schedules"], "every interleaving of any number of worker threads",
  "The tests run one or two threads on one schedule; absence of data races is a statement about all schedules.",
  [("worker", "src/FixedSource.cpp"), ("shared counter", "src/Driver.hpp")],
  "interprocedural effect analysis from the thread entry point",
  "Exact set of written objects reachable from the thread entry over the resolved call graph; library containers by the models in mc/interp.py. " + TRUST)

p("C07", "Histories are reproducible",
  "The outcome of a history is a function of the model and its seed alone: every random number it uses comes from its own particle's generator, no other source of entropy or time is consulted, "
  "the order of random draws does not depend on unspecified evaluation order, and no result depends on memory addresses.",
  ["inputs", "schedules"], "every history, seed and run of the program",
  "Two runs in the same environment often agree by luck; tests compare a few seeded numbers on one compiler.",
  [("own generator", "src/Particle.hpp"), ("draw sequence", "src/Source.cpp"), ("ordered containers", "src/Material.hpp"), ("ordered containers", "src/Cell.hpp")],
  "effect and provenance analysis of random number generators, address-order lint on containers and sorts",
  "Decides where generators come from, entropy sources, unsequenced draws and address-ordered iteration. " + TRUST)

p("C08", "Exactly the requested histories are run",
  "A solve simulates exactly as many histories as the input requests, whatever the number of threads and however they are scheduled, and history number i (counted from zero) is seeded with the "
  "input's seed plus i. The same holds every time a driver is asked to solve.",
  ["schedules", "inputs"], "every number of threads, every interleaving, every requested number of histories",
  "An off-by-one or a repeated index at a chunk end only shows for certain interleavings or thread counts.",
  [("counter", "src/FixedSource.cpp"), ("reads general/histories", "src/Driver.cpp")],
  "atomic fetch-add typestate and guard analysis on the worker loop",
  "Decides the claim/guard/seed shape of the worker loop on all paths; std::atomic and std::async are trusted. " + TRUST)

p("C09", "Tallies accumulate complete histories",
  "For every history and every tally bin, the accumulated score grows by the history's total score in that bin and the accumulated squared score by the square of that same total, exactly once, after the last particle of "
  "the history is finished. Nothing scored in one history enters another.",
  ["histories", "inputs"], "every history, every tally, every bin, any number of scores per bin",
  "Squared scores per event instead of per history agree with the right answer whenever a bin is scored at most once per history, which is what tests do.",
  [("pending scores and commit", "src/Scorable.cpp"), ("worker loop", "src/FixedSource.cpp")],
  "value numbering of commit/score effects plus must-pass ordering in the worker loop",
  REAL + TRUST)

p("C10", "Merging and copying results loses nothing",
  "Adding one result set to another adds every score and every squared score of every tally and of every sensitivity to its counterpart with the same name, and a copy of a result set "
  "reproduces every tally and every sensitivity completely. The result of a solve is the sum over all workers.",
  ["inputs", "schedules"], "every number of workers, tallies, sensitivities and bins",
  "Tests do not compare multi-threaded sensitivities or copied sets member by member.",
  [("merge", "src/Estimator.cpp"), ("merge", "src/Scorable.cpp"), ("sum over workers", "src/FixedSource.cpp")],
  "value numbering of merge effects, member-completeness of copy operations",
  REAL + TRUST)

p("C11", "Reported mean and standard error",
  "For N requested histories with accumulated score S and accumulated squared score Q in a bin, the reported mean is S/N and the reported standard error is sqrt(Q - S*S/N)/N, for every bin of every tally and every sensitivity.",
  ["inputs", "histories"], "every tally, bin and number of histories",
  "Tests look at a few means with wide tolerances and never at the standard error of several scores.",
  [("statistics", "src/Scorable.cpp"), ("number of histories", "src/Driver.cpp")],
  "value numbering of the written text against the reference formulas",
  REAL + TRUST)

p("C12", "Every banked particle is simulated once",
  "In each history every particle that is put into the particle bank, source particle and secondaries of any generation alike, is transported exactly once, and the history ends only when the bank is empty. "
  "All secondaries a particle produced are handed over to the bank before that particle is discarded.",
  ["histories"], "every history tree of secondaries",
  "Losing a generation, or a second visit, changes results only in multiplying problems.",
  [("bank loop", "src/FixedSource.cpp"), ("hand-over", "src/Particle.cpp")],
  "path analysis (must-pass, pairing) of the bank loop and value numbering of the hand-over",
  "Decides the order and pairing of the bank operations on all paths, and that the particle removed is the one transported; std::list semantics are modelled. " + TRUST)

p("C13", "Every transport step is offered to the tallies once",
  "In every transport method, every step of a particle that ends at a surface or at a real collision is offered exactly once to every tally, after the particle's position, cell and event describe the end of that step. "
  "A particle that enters a region without material is marked as leaked, and any other surface crossing as a crossing.",
  ["histories"], "every step of every particle under every transport method",
  "Tests check aggregate leakage; a step scored twice or before its event is set can cancel or stay unseen.",
  [("transport loops", "src/TransportMethod.cpp"), ("tally offer", "src/Estimator.cpp")],
  "path analysis of the transport loops' effect sequences",
  "Decides per-path event sequences in all transport methods and the fan-out over all tallies. " + TRUST)

p("C14", "Outcomes of a collision determine the particle's fate",
  "A capture, a fission or a leak ends the particle's life and nothing else does; a scatter keeps it alive with its new direction and energy. Every interaction of every data kind leaves the particle with the event of the reaction that was selected, "
  "and fission banks its secondaries at the collision site, in the current cell.",
  ["histories", "inputs"], "every interaction of every nuclear data kind",
  "Tests only drive multigroup interactions; continuous-energy and thermal paths are not executed at all.",
  [("lifecycle", "src/Particle.cpp"), ("reactions", "src/Multigroup.cpp"), ("reactions", "src/ContinuousReaction.cpp")],
  "value numbering of interaction effects per reaction",
  "Decides effects per reaction on all paths; sampled magnitudes are other properties. " + TRUST)

p("C15", "Surface tracking only in regions of constant temperature",
  "A model that requests surface tracking is rejected with an exception whenever its global temperature field is not constant; cells can only override that field by a constant, so a model is never simulated by surface tracking with a temperature that varies inside a cell.",
  ["configurations"], "every model",
  "Tests cover at most one rejected model.",
  [("selection", "src/TransportMethod.cpp"), ("constancy", "src/World.cpp")],
  "guard (must-pass) analysis of the method selection and value numbering of the constancy test",
  "Decides that construction of the method is guarded on all paths and that the guard means constancy for all cells. " + TRUST)

p("C16", "Delta tracking decides collisions at the collision site",
  "In delta tracking the distance to the next tentative collision is sampled with the cell's majorant, the particle is moved to the tentative site, and the collision is accepted with probability cross section at that site divided by the majorant. "
  "A rejected collision changes nothing but the position.",
  ["inputs", "histories"], "every tentative collision in a region with varying temperature",
  "With a temperature that is constant the site does not matter, and all tests use that.",
  [("delta tracking loop", "src/TransportMethod.cpp")],
  "path-sensitive order analysis and value numbering of the acceptance probability",
  REAL + TRUST)

p("C17", "Directions stay unit vectors",
  "Every direction a particle can ever have is a unit vector (a direction made from a vector is that nonzero vector divided by its norm), and a scattered direction encloses exactly the requested cosine with the direction before, for every direction including those (anti)parallel to a coordinate axis and for every azimuth.",
  ["inputs", "histories"], "every direction, cosine and azimuth",
  "Tests check a few directions; the degenerate pole case and the signs of the components need all of them.",
  [("construction of directions", "src/Point.cpp")],
  "symbolic value numbering of direction constructors against norm and dot product; who-may-write rule",
  REAL + "The pole branch and the general branch are decided separately. " + TRUST)

p("C18", "Inside and distance agree for every surface",
  "For every surface kind, the inside test is the sign of the surface's defining function, and the distance along a unit direction is the smallest positive root of that function along the ray, infinite if there is none. "
  "A root too close to zero to be told from it is not reported when the particle starts on the surface.",
  ["inputs"], "every point and every direction",
  "Tests sample a few rays per surface and leave out kinds (x-cylinder inside test was wrong and unnoticed).",
  [("surfaces", "src/CSGSurface.cpp")],
  "value numbering of inside test and distance roots against the same defining polynomial",
  REAL + TRUST)

p("C19", "Bins cover the whole axis and match the printed boundaries",
  "Every value is assigned to exactly one existing bin, and the bin it is assigned to is the one delimited by the boundaries that are printed with the results: bin 0 below the first boundary, the last bin from the last boundary on. "
  "The joint index over the two axes is unique for every pair of bins.",
  ["inputs"], "every tallied value including ones at boundaries and outside the binned range",
  "Tests check a handful of values per bin kind.",
  [("bins", "src/Bins.cpp")],
  "value numbering of index functions at the printed boundaries",
  REAL + TRUST)

p("C20", "Tabulated data interpolate between and clamp outside their points",
  "Looking up a tabulated function gives the first value below the table, the last value above it, the stored value at a stored point, and the linear interpolation of the two neighbours in between.",
  ["inputs"], "every table and every argument",
  "The nuclear data that would exercise the tables are absent from the tests.",
  [("lookup", "src/ContinuousMap.hpp")],
  "value numbering of lookup expressions against the reference",
  REAL + TRUST)

p("C21", "Tabulated cross sections are used only near their temperature",
  "Cross sections that were evaluated at one temperature are accepted exactly for target temperatures that differ from it by less than a fixed tolerance in either direction, and a tabulated total is used only where it is accepted for the temperature at hand (that at the particle's position, or the upper bound in the cell for a majorant) and no reaction modifies it.",
  ["inputs"], "every requested temperature",
  "No test uses evaluated data with another temperature.",
  [("tolerance", "src/ContinuousEvaluation.cpp")],
  "value numbering of the acceptance predicate (symmetry)",
  REAL + TRUST)

p("C22", "Random selections are consistent with the total",
  "Wherever one of several alternatives (nuclide of a material, reaction of a nuclide, outgoing group) is selected at random in proportion to weights, every alternative has probability weight divided by the sum of all weights: the "
  "running sum includes the alternative's own weight before the comparison, and the random threshold is a uniform number times the total that the weights add up to (or the selection is repeated if the threshold is not reached).",
  ["inputs", "histories"], "every selection among weighted alternatives",
  "Tests cannot tell a slightly wrong selection from noise, and only the multigroup selections run.",
  [("reaction and group selection", "src/Multigroup.cpp"), ("reaction selection", "src/Continuous.cpp"), ("nuclide selection", "src/Particle.cpp")],
  "value numbering of the accumulate-and-compare loops, resolution of the total to the sum of the same weights",
  REAL + TRUST)

p("C23", "Material totals are the atom-fraction weighted sums of their nuclides",
  "The microscopic total, the majorant and every other aggregate of a material is the sum over all its nuclides of atom fraction times the nuclide's corresponding quantity, and a nuclide's total is the sum of its reactions.",
  ["inputs"], "every material",
  "Tests only use one- or two-nuclide materials in one data kind.",
  [("aggregates", "src/Material.cpp"), ("totals", "src/Multigroup.cpp")],
  "value numbering of aggregate loops, sibling agreement of total and majorant",
  REAL + "That a majorant is numerically at least the cross section is not decided. " + TRUST)

p("C24", "Flight distances follow the macroscopic cross section",
  "The distance to the next collision is drawn from an exponential distribution whose rate is the number density of the current cell times the current microscopic cross section (total for surface tracking, majorant for delta tracking), and a particle that is nearer to a surface than to its "
  "collision is moved just across that surface along its direction.",
  ["inputs", "histories"], "every flight in every transport method",
  "Tests have unit densities or check aggregates with loose tolerances.",
  [("transport loops", "src/TransportMethod.cpp"), ("collision probability", "src/Interaction.cpp")],
  "value numbering of sampled distances, rates and moved-to positions",
  REAL + TRUST)

p("C25", "Multi-dimensional tables are addressed row-major without gaps",
  "An n-dimensional table read from a data file is addressed so that the last axis is contiguous and every other stride is the product of the sizes of all later axes; each combination of axis levels addresses its own element.",
  ["inputs"], "every table shape",
  "The data files are absent from the tests.",
  [("addressing", "src/HDF5DataSet.hpp")],
  "value numbering of the address and stride computation",
  REAL + TRUST)

p("C26", "A tally counts the particles that cross its surface, in the bin of what they are",
  "A current tally scores one for every particle that crosses, or leaves the model through, the surface named in its input, and zero for every other particle or event. The scored particle falls into the bin of its direction cosine, "
  "that is the inner product of the reference direction given in the input with the particle's direction, if the tally has a cosine axis, and of its energy or group if it has an energy axis; both axes have the boundaries the input describes under their names.",
  ["inputs", "histories"], "every event, surface, direction and energy",
  "Tests run one or two models and compare totals within statistical error.",
  [("score", "src/Estimator.cpp"), ("bins", "src/Bins.cpp")], "value numbering, decision table over events",
  "How boundaries map to bin numbers is C19; that the particle is offered after each event is C13. " + REAL + TRUST)

p("C27", "No value is read before it is initialised",
  "Every scalar member of every object is initialised by every way of constructing the object, and no member's initialiser reads another member that is initialised later.",
  ["programs", "inputs"], "every class and every constructor",
  "Uninitialised reads usually see zero memory in tests.",
  [("members", "src/Particle.hpp"), ("members", "src/Driver.hpp")],
  "definite-initialisation analysis of constructors and member order",
  "Exact over the project's own classes. " + TRUST)

p("C28", "The output file is complete",
  "A successful run writes, next to the input with extension .out, the number of histories followed by every tally with its name, the boundaries of its axes (the given ones, or equal or logarithmic steps between the given limits), and the mean and standard error of every bin, and, for each of its sensitivities, its name and the mean and standard error of every bin. "
  "Consecutive numbers are always separated.",
  ["inputs", "configurations"], "every set of tallies and sensitivities",
  "No test reads the output file.",
  [("writer", "src/Estimator.cpp"), ("main", "src/minimc.cpp")],
  "grammar of the written text by abstract interpretation of string building",
  "Decides the grammar of the written text (which numbers, headings and separators, in which loops), not number formatting. " + TRUST)

p("C29", "Atom fractions are normalised",
  "The atom fractions a material works with are the given ones divided by their sum, for any positive fractions.",
  ["inputs"], "every material",
  "Tests use normalised fractions.",
  [("construction", "src/Material.cpp")], "value numbering of the constructor", REAL + TRUST)

p("C30", "Multigroup data keep their shape and orientation",
  "One- and two-dimensional multigroup data are accepted only if they have exactly one entry per group (squared for transfer data), otherwise an exception is thrown. The entry for outgoing group g and incoming group g' is the one at row g, column g' of the input, "
  "transfer probabilities of each incoming group are normalised over outgoing groups, and the total cross section of a group is the sum over its reactions.",
  ["inputs"], "every number of groups and every data table",
  "Tests use one or two groups with symmetric or diagonal data.",
  [("data", "src/Multigroup.cpp")], "value numbering of the data constructors", REAL + TRUST)

p("C31", "Collision kinematics in multigroup mode",
  "A multigroup scatter moves the particle to a group between 1 and the number of groups, drawn from its current group's transfer probabilities, and into an isotropic direction; a multigroup fission produces an integer number of secondaries whose expectation is the group's yield, each in a group drawn from the fission spectrum and with its own isotropic direction.",
  ["inputs", "histories"], "every collision in every group",
  "Tests compare aggregates with one or two groups.",
  [("scatter and fission", "src/Multigroup.cpp"), ("banking", "src/Particle.cpp")], "value numbering of sampled outcome and draw provenance", REAL + TRUST)

p("C32", "Source particles follow the requested distributions",
  "Position, direction, energy and type of a source particle are drawn, each from its own requested distribution and with random numbers used for nothing else: a fixed point or constant is used as given, isotropic directions have uniform cosine and azimuth, and a directional flux source has a cosine equal to the square root of a uniform number relative to its reference direction.",
  ["inputs"], "every source definition",
  "Tests do not look at distributions of source particles.",
  [("source", "src/Source.cpp"), ("isotropic", "src/Point.cpp")], "value numbering of sampled values", REAL + TRUST)

p("C33", "Elastic collisions conserve energy and momentum",
  "In a continuous-energy elastic collision with a target nucleus of given mass ratio, the relative speed is unchanged in the centre-of-mass frame, and the particle leaves with the energy and the deflection cosine of the velocity that results from transforming back to the laboratory frame, the azimuth around its old direction being uniform.",
  ["inputs", "histories"], "every energy, target velocity and mass ratio",
  "No test executes continuous-energy scattering.",
  [("free gas scatter", "src/ContinuousReaction.cpp")], "value numbering against the two-body kinematics", REAL + TRUST)

p("C37", "Sensitivities follow the particle's indirect effects",
  "Before every transport of a particle its indirect effect is zero for every perturbation of the input; every flight and every scatter adds to it, exactly once for every perturbation, that perturbation's own contribution for the particle as it was before the step, and nothing else changes it. "
  "The score of a sensitivity is the score of its tally times the effect of its perturbation, in the tally's own bins. There is one perturbation for every entry of the input, one sensitivity for every entry of a tally, of the perturbation it names, and a perturbation of a nuclide has no effect in materials that do not contain it.",
  ["inputs", "histories"], "every history and every set of perturbations",
  "The one sensitivity test compares totals within statistical error.",
  [("effects", "src/Particle.cpp"), ("scores", "src/Sensitivity.cpp"), ("perturbations", "src/Perturbation.cpp")],
  "value numbering of the updates, typestate of the worker loop",
  "What a perturbation contributes per step (a formula of the method, not of the input) is not judged. " + REAL + TRUST)

p("C38", "Targets of elastic collisions move with the local temperature",
  "In a continuous-energy elastic collision the velocity of the target nucleus is that of a free gas at the temperature of the particle's cell at the particle's position, weighted with the relative speed: the speed comes from one of the two sampling laws chosen with the right probability, "
  "its cosine about the incident direction is uniform before acceptance in proportion to the relative speed, everything is drawn anew after a rejection, and the azimuth is uniform.",
  ["inputs", "histories"], "every energy, temperature and mass ratio",
  "No test executes continuous-energy scattering.",
  [("free gas scatter", "src/ContinuousReaction.cpp")], "value numbering against the sampling laws, freshness of draws on loop paths", REAL + TRUST)

p("C39", "The model simulated is the one the input describes",
  "Every number and file of the input is used for the quantity its element names: a sphere is the set of points within its radius of its centre, a plane and a cylinder likewise, with the attributes of the element of that name; densities belong to the material named, "
  "mass ratios to the nuclide, every table comes from the file of its own element and is tagged with that element's temperature; the thermal scattering tables and cutoffs are those of their names; seed (one if left out), threads and cycle counts are the input's; "
  "there is one cell for every cell element; without a temperature the model is at room temperature.",
  ["inputs"], "every valid input document",
  "Tests load a handful of models, none with thermal scattering data, spheres only at the origin.",
  [("surfaces", "src/CSGSurface.cpp"), ("tables", "src/ContinuousReaction.cpp"), ("thermal scattering tables", "src/ThermalScattering.cpp"), ("driver", "src/Driver.cpp"), ("world", "src/World.cpp")],
  "value numbering of constructors against the attributes of the element they are given",
  "That objects referred to by name are the right ones is C04; multigroup data are C30, temperature fields C34, sources C32, bins C19 and C26. " + REAL + TRUST)

p("C40", "Thermal scattering follows its tables",
  "Neutrons below the last tabulated energy, and nothing else, scatter thermally. The total cross section interpolates linearly in energy and temperature between the neighbouring reconstructed table values, taking the nearest one outside of the table; expansions in modes do the same in temperature; no "
  "temperature gives an undefined value. An energy transfer is sampled on one of the neighbouring energies, chosen with the probability of linear interpolation, by linear interpolation of its inverse cumulative distribution, whose ends are the loss of all that energy and the largest beta; it is taken only if it leaves "
  "no negative energy. A momentum transfer is sampled likewise on a neighbouring energy transfer, restricted to what kinematics allow for it and scaled to what they allow for the actual one. Outgoing energy and cosine are those of the sampled transfers.",
  ["inputs"], "every table, energy, temperature and draw",
  "The tests that use thermal scattering need data files which are not part of the repository; none of them runs.",
  [("thermal scattering", "src/ThermalScattering.cpp"), ("tables", "src/HDF5DataSet.hpp")],
  "case analysis of table lookups over symbolic positions, and value numbering",
  "Where the input has fewer than two energies or betas the property says nothing about sampling. " + REAL + TRUST)

p("C41", "The elastic cross section follows the local temperature",
  "Wherever a valid thermal scattering library applies to a neutron, the elastic cross section, its majorant and the collision itself come from that library, nowhere else, and the nuclide does not use its tabulated total there. Otherwise the cross section is the tabulated one at the particle's energy, "
  "except that for neutrons whose targets' motion matters (no heavier target than the neutron, or an energy below a fixed multiple of kT over the mass ratio) and data evaluated at another temperature it is scaled from the free gas cross section at the temperature of the data to that at the particle's position, "
  "or at the highest temperature in the cell for the majorant. Captures and fissions always have their tabulated cross section.",
  ["inputs"], "every particle, reaction, temperature field and table",
  "No test executes continuous-energy scattering.",
  [("cross sections", "src/ContinuousReaction.cpp")],
  "case analysis over the outcomes of all conditions, values compared as real functions; path-sensitive validity at the collision laws",
  "The multiple of kT is not prescribed (100 to 2000 are accepted). Acceptance of a temperature is C21, validity and values of the library C40. " + REAL + TRUST)

p("C34", "Temperature fields give the value that was asked for",
  "A constant field has its value everywhere, equal lower and upper bounds, and reports itself constant; a linear field has at any point its intercept plus the inner product of gradient and position, and reports itself not constant unless its gradient is zero. The temperature of a cell is its own if it was given one, and the global temperature field otherwise.",
  ["inputs"], "every field and every position",
  "Tests evaluate few points.",
  [("fields", "src/ScalarField.cpp")], "value numbering", REAL + TRUST)

p("C35", "A point belongs to the cell whose surface senses it satisfies",
  "A cell contains a point exactly if the point is on the required side of every one of the cell's surfaces; the cell found for a point is one that contains it, or an exception is thrown; the nearest surface of a cell is the one with the smallest distance among all the cell's surfaces, reported with that distance.",
  ["inputs"], "every geometry, point and direction",
  "Tests probe a few points in small geometries.",
  [("cells", "src/Cell.cpp"), ("world", "src/World.cpp")], "value numbering of the quantified predicates and of the minimum search", REAL + TRUST)

p("C36", "Vector algebra",
  "Addition, subtraction, scaling, negation, inner product, cross product, norm and equality of vectors are the mathematical ones, component by component.",
  ["inputs"], "every vector",
  "Tests use vectors with repeated or zero components.",
  [("vectors", "src/Point.cpp")], "value numbering against the definitions", REAL + TRUST)

for i, t, st, why in [
    ("N01", "Tallies converge to the physical answer", "The expectation of each tally equals the solution of the transport equation for the model.", "statistical unbiasedness of the whole simulation is a statement about distributions of runtime values; the structural clauses that static analysis can decide are C09, C16, C18, C22-C24"),
    ("N02", "Particles always make progress", "Every history terminates: no particle is ever stuck on a surface.", "depends on floating point rounding of the nudge against surface coordinates; no static bound on these values is in reach"),
    ("N03", "The majorant bounds the cross section", "The majorant used in delta tracking is nowhere smaller than the cross section it bounds.", "a relation between tabulated data read at run time"),
    ("N04", "k-eigenvalue iteration converges", "The multiplication factor converges to the dominant eigenvalue.", "the solver is a stub in this revision and the property is about run-time convergence"),
]:
    p(i, t, st, ["inputs"], "every model", "statistical or numerical", [("transport", "src/TransportMethod.cpp")], na=why)


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as fh:
        for q in PROPS:
            fh.write(json.dumps({"id": q["id"], "title": q["title"], "statement": q["statement"],
                                 "quantifier": {"over": q["over"], "text": q["qtext"]}, "why_tests_cant": q["why"],
                                 "anchors": {"files": q["files"], "mechanism": [{"name": a, "where": b} for a, b in q["mech"]]}}) + "\n")
    have = {f[:-3].upper() for f in os.listdir(os.path.join(HERE, "mc", "checks"))}
    m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": [], "not_applicable": [],
         "notes": "All checks share one clang-based front end (tool/extract.cpp) and one value-numbering engine (mc/). No hooks are needed in /repo."}
    for q in PROPS:
        if q["na"]:
            m["not_applicable"].append({"property": q["id"], "reason": q["na"]})
        elif q["id"] in have:
            m["checks"].append({"property": q["id"], "quick_cmd": "python3 check.py " + q["id"], "thorough_cmd": "python3 check.py %s --thorough" % q["id"],
                                "technique": q["technique"], "level": "other", "level_note": q["note"].strip()})
        else:
            m["not_applicable"].append({"property": q["id"], "reason": "applicable; its check has not been built yet"})
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as fh:
        json.dump(m, fh, indent=1)
        fh.write("\n")
    catalogue(have)


def catalogue(have):
    """the section of DESIGN.md that lists what each check demands"""
    import importlib, sys, textwrap
    sys.path.insert(0, HERE)
    out = []
    for q in PROPS:
        if q["id"] not in have:
            continue
        m = importlib.import_module("mc.checks." + q["id"].lower())
        out.append("**%s – %s.** *Method:* %s." % (q["id"], q["title"], q["technique"]))
        out.append("*Rule:* %s." % m.RULE)
        out.append("*Anchors:* %s." % "; ".join("%s (%s)" % x for x in q["mech"]))
        out.append("*Why tests cannot:* %s" % q["why"])
        out.append("*Reach/limits:* %s" % q["note"].strip())
        out.append("")
    text = "\n".join("\n".join(textwrap.wrap(x, 130)) for x in out)
    p = os.path.join(HERE, "DESIGN.md")
    s = open(p).read()
    a, b = "<!-- catalogue: written by props.py -->", "<!-- end of catalogue -->"
    if a in s and b in s:
        s = s[:s.index(a) + len(a)] + "\n\n" + text + "\n" + s[s.index(b):]
        open(p, "w").write(s)


if __name__ == "__main__":
    main()
