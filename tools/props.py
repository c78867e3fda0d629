#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the source of the property list)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

p("C01", "A step across a wall is mirrored or wrapped back into the system",
  "For every ball, box and cylinder, in every dimension and with every boundary type, a walker inside the system that is given a displacement ends inside the system: exactly at position plus displacement if that point is inside, otherwise with every crossing coordinate mirrored at the wall (reflecting), shifted by one period (periodic), or scaled along the radius to the mirrored distance (ball and cylinder cross-section), coordinates that do not cross staying untouched. "
  "A displacement too large for one such fold to bring the walker inside is refused with an error, never accepted with the walker outside, and a position of the wrong dimension is refused with an error. "
  "The exact variant for balls returns the specular reflection of the straight segment at the sphere whenever that reflection lies inside, and the first-order variant agrees with it up to the square of the step.",
  ["inputs", "configurations"], "all system shapes, sizes, dimensions and boundary types; all start points inside and all displacements, including several coordinates crossing at once and displacements at the limit of one fold",
  "Tests take one or two displacements per shape in two dimensions; the guarantee ranges over all shapes, dimensions, wall combinations and lengths.",
  ["src/system_mod/cont_circ.rs", "src/system_mod/cont_cubic.rs", "src/system_mod/cont_cyl.rs"],
  [("check_bc of the three systems", "src/system_mod/*.rs"), ("check_bc_exact", "src/system_mod/cont_circ.rs")],
  ["position after check_bc / check_bc_exact and the returned Result"])

p("C02", "Random and initial positions lie inside the system and off the target",
  "Whatever the random generator returns, a random position of a ball, box or cylinder (returned or written into a vector) lies inside the system and is the image of the accepted draws scaled to the system's size, so that every part of the system can be reached; a position of the wrong dimension is refused. "
  "The position offered as outside the system is outside it for every configuration, and an agent placed or re-placed uniformly, of every kind, starts inside the system, outside the target, with the system's dimension. "
  "Membership is decided by the geometry, the wall belonging to the system: distance to the centre for a ball, each coordinate against the half-length for a box, both for a cylinder.",
  ["inputs", "configurations"], "all draws of the generator (rejections included), all systems, all targets, all agent kinds",
  "Tests look at a few seeds and at statistics of one configuration per shape; membership must hold for every draw sequence and every configuration.",
  ["src/system_mod/cont_circ.rs", "src/system_mod/cont_cubic.rs", "src/system_mod/cont_cyl.rs", "src/agent_mod", "src/random_mod/mod.rs"],
  [("random_pos, random_pos_to_vec, position_out_of_system(_to_vec), check_inclusion", "src/system_mod/*.rs"), ("new_uniform, renew_uniform", "src/agent_mod/*.rs")],
  ["returned positions, agent.pos, agent.dim, SystemCore::check_inclusion"])

p("C03", "A searcher finds the target exactly when closer than its radius",
  "For every target centre, radius and dimension, a position is reported as having found the target exactly when its Euclidean distance to the centre is smaller than the radius, and a position of another dimension is refused with an error. "
  "Targets built directly and targets built from parsed arguments behave the same.",
  ["inputs", "configurations"], "all centres, radii, positions and dimensions",
  "Tests use one target and a few points; the decision must be right for every geometry, on each axis and for each sign.",
  ["src/target_mod/cont_bulk.rs", "src/target_mod/mod.rs", "src/position.rs"],
  [("check_find", "src/target_mod/cont_bulk.rs"), ("distance", "src/position.rs")],
  ["ContBulkTarget::check_find"])

p("C04", "A pass over an agent list visits each live element once, in order",
  "After any history of insertions, deletions and reconnections, a pass over an agent list (by reference, mutable reference, index or both) visits exactly the elements that are alive, each once, in insertion order, with the right index and content, and then stays finished. "
  "Elements deleted while a pass is running are not visited afterwards and no other element is skipped or repeated; deleting an element twice or out of range is an error without effect; reconnecting revives every element.",
  ["histories"], "all interleavings of push, delete, reconnect, begin pass and the five ways to take the next element",
  "Tests follow three hand-written histories; the links are rewritten by every operation and the cursor must survive each of them at each position.",
  ["src/iterator.rs"], [("del, push, connect_all, into_iter, get/enumerate/indicies", "src/iterator.rs")],
  ["elements produced by a pass, Result of del"], [("links, head, tail, current", "doubly linked order and cursor", "src/iterator.rs")])

p("C05", "A pair pass produces every unordered pair of live elements exactly once",
  "After any history of insertions, deletions and reconnections, a pass over pairs produces every unordered pair of live elements exactly once, the earlier element first, in lexicographic insertion order, with the right indices and contents. "
  "When elements are deleted or merged away while the pass is running, exactly the remaining pairs among live elements are still produced; a single-element pass started after an unfinished pair pass is complete as well.",
  ["histories"], "all histories of list operations, pair passes and deletions or merges at every point of a pass",
  "Tests run one undisturbed pair pass; coalescence simulations delete elements in the middle of passes, where two cursors and the links have to stay consistent.",
  ["src/iterator.rs"], [("into_double_iter, get_double/enumerate_double/indicies_double, del, merge", "src/iterator.rs")],
  ["pairs produced by a pass"], [("current", "two cursors of the pair pass", "src/iterator.rs")])

p("C06", "Merging clusters conserves mass and follows the diffusion law",
  "In every history of merges, deletions and renewals, merging two distinct live clusters removes the absorbed one and adds its size to the survivor, which keeps its position, so the total size of live clusters is conserved, and a merge that is refused (dead, equal or out-of-range index, unsupported motion type) returns an error and changes nothing. "
  "The diffusion coefficient of a cluster of size n built with coefficient D and exponent a is always D*n^(-a), independently of the order in which it was assembled, and renewing a cluster restores size 1 and coefficient D.",
  ["histories", "inputs"], "all merge/delete/renew histories over small lists, all exponents and coefficients",
  "Tests merge two unit clusters once; conservation and history independence quantify over merge orders and refused merges.",
  ["src/iterator.rs", "src/agent_mod/cont_passive_merge.rs"], [("LinkedList::merge", "src/iterator.rs"), ("merge, add_size, renew_uniform", "src/agent_mod/cont_passive_merge.rs")],
  ["size(), mtype, live elements, Result of merge"])

p("C07", "A constant clock ticks at k*dt from 0 up to and including its limit",
  "For every step size and time limit, the constant-step clock yields 0, dt, 2dt, ... and stops after the last multiple not exceeding the limit; a limit of 0 (or below 1e-15) means it never stops, and it reports the current time and step size truthfully. "
  "Rewinding at any point, changing the limit at any point, and the variant that also yields the step size follow the same sequence; invalid step sizes (zero, negative, infinite, no number) and limits (negative, no number) are refused, both directly and from parsed arguments.",
  ["histories", "inputs"], "all step sizes, limits and histories of next, renew, set limit and switch to the (time, step) form",
  "Tests run one clock to its end; the histories of rewinding and changing the limit, tiny limits and invalid settings are unbounded.",
  ["src/time_mod/mod.rs"], [("ConstStep", "src/time_mod/mod.rs"), ("TimeDiffIterator", "src/time_mod/mod.rs")],
  ["times yielded, dt(), current_time(), Results"])

p("C08", "The exponential clock keeps its step-size schedule",
  "For every valid setting, the exponential clock starts at 0 with the minimal step; each yielded time is the previous time plus the step reported for it, every step size below the maximum is used for exactly the configured number of ticks and is then multiplied by one constant factor larger than 1 (capped at the maximal step; the factor asked for, or 10 by default and 1.2 for clocks made from arguments, but at most half the number of ticks, and 1.2 for one or two ticks), so that the step never decreases, never exceeds the maximum and reaches it. "
  "It stops after the last time not exceeding its limit (0 or below 1e-15: never), rewinding restores the initial schedule completely, and invalid settings (non-positive or inverted step sizes, zero length, factor not above 1, anything that is no number) are refused.",
  ["histories", "inputs"], "all (min, max, length, factor, limit) settings and histories of next, renew, set limit, set factor",
  "Tests run one or two settings; short lengths, caps that are hit exactly and rewinding in the middle of a group are separate cases.",
  ["src/time_mod/mod.rs"], [("ExponentialStep", "src/time_mod/mod.rs")],
  ["times and steps yielded, Results"])

p("C09", "Random moves are reproducible and distributed by the generator's draws",
  "The same seed gives the same random numbers, positions and displacements, different seeds give different ones, and every random function consumes the generator only, so repeating a call history from the same seed repeats all results. "
  "A Brownian agent's displacement has, in each coordinate, exactly sqrt(2*D*dt) times the standard Gaussian drawn for it; writing it into a vector adds it to what the vector contains, and returns the same values as the allocating form. "
  "Uniform numbers stay strictly within their range, uniform and Gaussian vectors have the requested length with fresh draws in each coordinate, and unsupported motion types or wrong dimensions are refused with an error.",
  ["inputs", "histories"], "all draws of the generator, seeds, dimensions, coefficients, step sizes and call orders",
  "Tests compare statistics of one configuration; reproducibility and the exact scaling quantify over draw sequences and parameters.",
  ["src/random_mod/mod.rs", "src/agent_mod"], [("get_uniform*, get_gaussian*, rng_seed", "src/random_mod/mod.rs"), ("random_move, random_move_to_vec", "src/agent_mod/*.rs")],
  ["numbers, vectors, displacements"])

p("C10", "Pair interactions are symmetric, unit-directed and derive from the potential",
  "For every pair of agents of one kind, the mutual direction is a unit vector pointing from the first to the second, the distance is Euclidean, swapping the agents negates the direction and keeps the distance, and the in-place form gives the same result; different dimensions are refused. "
  "The exponential potential is strength*exp(-r/gamma) and the Lennard-Jones potential 4*strength*((s/r)^12-(s/r)^6) with s the particle size, and the force reported for each is minus the derivative of its potential, so it is positive where the pair repels.",
  ["inputs", "configurations"], "all agent kinds, pairs of positions, dimensions, strengths, ranges and radii",
  "Tests evaluate one pair and one radius; the consistency between force, potential and direction must hold everywhere.",
  ["src/agent_mod"], [("mutual_displacement(_to_vec), mutual_distance", "src/agent_mod/*.rs"), ("potential, force", "src/agent_mod/cont_passive_exp.rs, cont_passive_lj.rs")],
  ["direction, distance, potential, force"])

p("C11", "Every value printed by the library reads back as the same value",
  "The printed form of every system type, boundary condition, agent type, motion type, initialisation, interaction type, target type, clock type, position and (time, value) pair is read back as the same value (up to the printed precision of numbers). "
  "The short input forms (a number, a coordinate list, one keyword) read as the value they denote.",
  ["inputs", "configurations"], "all variants and all finite numbers, dimensions and signs",
  "Tests print and parse one instance of each; dimension parameters, negative, tiny, huge and integral numbers are further cases.",
  ["src/system_mod/mod.rs", "src/agent_mod/types.rs", "src/target_mod/mod.rs", "src/time_mod/mod.rs", "src/position.rs", "src/macros.rs"],
  [("Display and FromStr implementations", "src/*/mod.rs, src/agent_mod/types.rs, src/position.rs")], ["format!, str::parse"])

p("C12", "Malformed text and arguments are refused with an error",
  "Any text without a recognisable keyword or with a missing or malformed number where the type needs one, and any argument list that is too short, is answered with an error: parsing never panics, never hangs and never silently substitutes a value for a malformed number. "
  "This holds for every type the library parses and for reading a parameter set from a command line or from the header of a result file. Blanks around a word are not part of it.",
  ["inputs"], "all token sequences over the vocabulary of the formats up to a length bound, all truncations and single-token corruptions of well-formed texts",
  "Tests parse well-formed text only.",
  ["src/system_mod/mod.rs", "src/agent_mod/types.rs", "src/target_mod/mod.rs", "src/time_mod/mod.rs", "src/position.rs", "src/macros.rs", "src/argument.rs"],
  [("FromStr implementations", "src/*/mod.rs, src/agent_mod/types.rs, src/position.rs"), ("read_args_from_vec, read_args_from_lines", "src/macros.rs")], ["Result of str::parse, read_args_from_vec, read_args_from_lines"])

p("C13", "A parameter set survives the header of its result file",
  "For every kind of system, target, agent, clock and simulation parameters, the parameter set read from a command line is the one given, in the documented order and number, and writing it as a file header with names padded to any width and reading it back gives the same set, leaving the reader exactly after the header. "
  "Several parameter sets written one after the other are read back in the same order.",
  ["inputs", "configurations"], "all parameter kinds, all values of their fields, name widths and orders",
  "Tests read single argument vectors; the combination of all kinds, widths and values with the shared line format is not covered.",
  ["src/macros.rs", "src/argument.rs", "src/setup.rs"], [("impl_argument_trait, print_configuration, read_args_from_lines", "src/macros.rs"), ("setup macros", "src/setup.rs")],
  ["read_args_from_vec, print_configuration, read_args_from_lines"])

p("C14", "Results are pooled exactly when their parameters are the same",
  "Two parameter sets belong to the same data set exactly when all the parameters that name the data set (the size, strength, time and count parameters of system, target, agent and clock that appear in its file name) are equal; excluded parameters of the run itself (sample counts, indices, seeds) do not count, and permuted or nearly equal values of different parameters do not collide. "
  "The file name is an injective, reproducible function of the parameters (and of the run index, where included), names of excluded parameters are left out, and a data set read back from its own header is equal to the original.",
  ["inputs", "configurations"], "all combinations of parameter values on a grid that includes tiny, huge, permuted and nearly equal values",
  "Tests compare two instances; equality is decided by a hash, where collisions and omitted fields are invisible to single examples.",
  ["src/macros.rs", "src/analysis.rs", "src/argument.rs"], [("derive_hash, construct_dataset", "src/macros.rs, src/analysis.rs"), ("export_file and friends", "src/analysis.rs")],
  ["DataSet equality and hash, export_file"])

p("C15", "Every recorded value is counted in the bin that contains it",
  "For every binning (given by number or by width, linear and logarithmic), a recorded first-passage time, vector component or process sample increases exactly one linear and one logarithmic bin, the one whose interval contains it, and values outside the recorded range (and values that are no number) are not lost silently into a wrong bin nor crash the analysis. "
  "Linear bins cover the range from minimum (a minimum below 1e-15 counts as 1e-15) to maximum with equal widths, logarithmic bins with equal ratios; meaningless binnings (an empty, negative or infinite range, no width, no number) are refused.",
  ["inputs", "configurations"], "all binnings and all values in range, on both sides of every bin border, the maximum included",
  "Tests check one binning and a handful of values.",
  ["src/analysis.rs"], [("Bin, bin_pos, lbin_pos, update_*", "src/analysis.rs")], ["exported distributions, Debug of the accumulators"])

p("C16", "Statistics equal the sample statistics, in any order",
  "Whatever samples are added and in whatever order, the exported ensemble count, mean and standard deviation are those of the samples, computed without NaN, and the columns carry the quantities their headers announce. "
  "Clearing an analysis and filling it again gives the same result as a fresh one.",
  ["histories", "inputs"], "all sequences of samples over a value alphabet up to a length bound, interleaved with clear",
  "Tests add one fixed sequence.",
  ["src/analysis.rs"], [("Var1, VarN, VarTime, Analysis implementations", "src/analysis.rs")], ["export_mean_stddev, Debug"])

p("C17", "Exported distributions list every occupied bin once and are normalised",
  "An exported distribution contains one row for every bin that holds samples and none for the others, at the bin's centre (or centre time), with a density (or mean) computed from its count, so that density times width sums to the fraction of the samples that are in range (to one if all are). "
  "When the output accepts only part of a write, the export retries until everything is written, and when it fails the export reports an error.",
  ["histories", "inputs", "fault_sequences"], "all fillings of small histograms, all short-write and error points of the writer",
  "Tests compare one exported text on a perfect writer.",
  ["src/analysis.rs"], [("export_lin_dist, export_log_dist, export_mean_stddev", "src/analysis.rs")], ["bytes written, io::Result"])

p("C18", "Analysing a directory pools all and only matching results, losing nothing",
  "Analysing a result directory produces, for every distinct parameter set with at least one sample among the matching files, one summary row and one distribution file holding the pooled statistics of all files with these parameters, whatever their number and order, and ignores directories and files whose header is not that of the program's kinds of system, target, agent, clock and run. A file that cannot be read and a result that cannot be written completely make the analysis return an error. "
  "It never modifies the result files and never overwrites an earlier analysis: every run writes to a fresh directory, also when two analyses run at the same time.",
  ["histories", "configurations", "schedules", "fault_sequences"], "all directories of up to a few files over a small set of parameter sets, prefixes and contents, repeated analyses, concurrent analyses, every failing or short operation on a file",
  "Tests analyse one prepared directory.",
  ["src/analysis.rs"], [("analyze", "src/analysis.rs"), ("construct_dataset", "src/macros.rs")], ["files in the analysis directory"])

p("C19", "A simulation program accepts its arguments and files for every combination",
  "For every combination of system, target, agent, clock and analysis, the generated program compiles, prints help when called without arguments, runs with a complete argument list, and starts an analysis when given the analysis arguments; a wrong number of arguments is an error. "
  "A run announces its parameters and writes a result file whose name and header denote exactly the given parameters, and a later analysis by the same program finds it. The header is in the file before the simulation starts: a run that is ended before its first data leaves it complete.",
  ["programs", "configurations"], "all combinations of the provided components; argument counts",
  "Tests expand two combinations.",
  ["moledyn_proc/src/lib.rs", "src/setup.rs"], [("simulation!", "moledyn_proc/src/lib.rs"), ("setup_simulation!", "src/setup.rs")], ["exit status, stdout, files"])

p("C20", "Vector arithmetic is exact and respects dimensions",
  "For positions of every dimension, sums, differences, scalar multiples (allocating and in place), norms, distances, inner products and taxicab distances equal their coordinate-wise definitions, for real and integer coordinates of any magnitude that the result type can represent, and do not modify their operands. "
  "Operations on two positions of different dimensions are refused (an error or a panic) and never compute on a part of the coordinates; indexing, slicing, iteration, extension and clearing act on exactly the named coordinates.",
  ["inputs", "histories"], "all operation sequences over small vectors with coordinates from a finite alphabet including extreme integers",
  "Tests use two or three vectors.",
  ["src/position.rs"], [("Position, Numerics", "src/position.rs")], ["results and operands"])

p("C21", "First-passage runs end at the first crossing and repeat from their seed",
  "For every sequence of random draws, a first-passage simulation built from the library's parts keeps the searcher inside the system at every step, ends at the first time the searcher is within the target radius and at no earlier or later time, and yields a first-passage time that is one of the clock's times. "
  "Several searchers merging, or repeated ensembles with renewal, start every ensemble from a state that depends on the parameters and the draws only, not on the previous ensemble.",
  ["histories", "inputs", "configurations"], "all draw sequences over a small alphabet up to a horizon for each combination of system, agent and clock",
  "Tests run whole simulations with one seed and check statistics.",
  ["src/system_mod", "src/agent_mod", "src/time_mod/mod.rs", "src/target_mod", "src/iterator.rs"], [("simulation loop built from the public API", "examples, tests")], ["trajectory, first-passage time"])

p("C22", "Components are built as their parameters say; impossible ones are refused",
  "A system, target, agent list, clock or simulation setup built from a parameter set carries exactly the values of the set (the requested number of agents, each of size one, at the given position or not yet placed) and equals the component built directly with the same values; placing such an agent uniformly gives, for the same random draws, the agent that uniform construction gives. "
  "Impossible configurations are refused, with an error or a panic, in both ways of building: a size that is zero, negative or no number, a dimension of zero, a cylinder whose cross-section or boundary condition does not fit its dimension, a box with more special coordinates than dimensions, an exponential agent whose dimension is not that of its position, a clock whose step is zero, negative or no number, whose steps are inverted or whose limit is negative. Possible configurations are not refused.",
  ["configurations", "inputs"], "all kinds of components, all combinations of their parameter values from alphabets with negative, zero, tiny and huge values, all boundary conditions and dimensions, both ways of building, all draws",
  "Tests build a few valid components; the two constructions are written twice for every kind and can drift apart for combinations nobody tries.",
  ["src/system_mod", "src/target_mod/cont_bulk.rs", "src/agent_mod", "src/time_mod/mod.rs", "src/setup.rs"], [("new, convert_from", "src/system_mod/*.rs, src/target_mod/*.rs, src/agent_mod/*.rs, src/time_mod/mod.rs"), ("new_uniform, renew_uniform", "src/agent_mod/*.rs")],
  ["fields of the component, error or panic"])

p("C23", "Macro-made structures, headings and rows carry every field, in order",
  "For every list of fields, a structure made by the library's macros is built with each argument in the field of that position and the determined fields at their defaults, equals another one exactly if all fields are equal, and clearing resets every field and nothing more. "
  "Headings name the listed columns in the given order at the given width, and rows give the listed values in that order with integers exact and reals at the requested form; a row with a column that is no number is refused. "
  "A parameter set that a user declares for a type of their own reads from a list and from its own printed header, refuses a wrong count or another determined field, and its help names every parameter in order.",
  ["configurations", "inputs"], "every number type at its limits in every column, all widths, all combinations of values of a parameter set",
  "Tests expand the macros with two integer columns and one width.",
  ["src/macros.rs", "src/argument.rs"], [("construct_structure, export_form, export_data and their public forms", "src/macros.rs"), ("impl_argument_trait", "src/argument.rs")], ["fields, text, Result"])

p("C24", "An error tells its cause: category, questions, equality and text agree",
  "Every error belongs to exactly one category (input/output, syntax, data), the questions is_io, is_syntax and is_data agree with it, its printed text is that of its cause, and two errors are equal exactly if their categories are. "
  "Failing to read because the bytes are no text is reported as a format error of the data and any other failure as an input/output error, and every operation of the library that refuses its arguments, a text or a configuration does so with a syntax error, while one that the file system fails does so with an input/output error.",
  ["inputs", "fault_sequences"], "all error codes and kinds of input/output errors, all pairs of errors",
  "Tests compare a few errors with themselves.",
  ["src/error.rs"], [("Error, ErrorCode, make_error_*", "src/error.rs")], ["Display, equality, category"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x) + "\n")
