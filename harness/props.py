NOTES = ("Every check builds the library from /repo's working tree (out of source, in /verif/build) with ASan and selected UBSan "
         "checks and links a generated-input search against it; run.py PROP --replay FILE replays a shrunk case.")
NA = {}
CFG = {"C26": {"variant": "tsan"}, "C29": {"variant": "refcnt", "flags": "-DUSE_ADTL_REFCOUNTING=1"}}
EXP = ("No violation in the generated cases of the run; says nothing beyond them. Trusts the harness's power-series reference and "
       "its rounding tolerance. ")
PBT = "property-based testing: "

prop("C01", "Recorded programs reproduce their values at every point",
 "For every function written with active scalars, the outputs seen while recording and the outputs of a zero-order evaluation of the "
 "recorded tape, at the recording point or at any other point whose control flow agrees, equal those of the same function in plain "
 "floating point. Dimensions and statistics reported for the tape agree with what was recorded.",
 ["programs", "inputs"], "All programs over the supported operations and operand kinds (variables, rvalues, constants, own arguments), all points of their domain.",
 "The tests record fixed one-operation functions at one or two points; aliasing of operands, compound assignments, rvalue reuse and optimised opcodes in combination are never sampled.",
 [S+"adouble.cpp", S+"uni5_for.cpp", S+"pdouble.cpp", I+"internal/adouble.h", I+"internal/common.h"],
 [("operator overloading records opcode, locations, values", "ADOL-C/src/adouble.cpp"), ("zero-order interpreter", "ADOL-C/src/uni5_for.cpp (zos_forward)")],
 PBT+"random programs, differential against plain double evaluation", EXP)
prop("C02", "First-order forward derivatives are the true derivatives",
 "First-order forward sweeps in scalar, vector and offset form deliver F(x) and F'(x) times every requested direction, at the recording point and "
 "at any other point with the same control flow, for every number of directions and with directions supplied or implied as the identity.",
 ["programs", "inputs"], "All supported programs, points, directions and direction counts.",
 "Tests check single operations with hand-computed derivatives; combinations of instructions, self-overwriting variables and many directions are not reached.",
 [S+"uni5_for.cpp", S+"interfaces.cpp"], [("tangent propagation per opcode", "ADOL-C/src/uni5_for.cpp (fos/fov_forward)"), ("overloaded forward()", "ADOL-C/src/interfaces.cpp")],
 PBT+"random programs, differential against a power-series reference", EXP)
prop("C03", "First-order reverse derivatives are the true derivatives",
 "After a forward sweep that keeps its intermediate values, scalar and vector reverse sweeps and the drivers gradient, jacobian, "
 "vec_jac and jac_vec deliver the exact adjoints of every supported program at the current point, including adjoints of overwritten variables. Return codes report a changed branch only when one changed.",
 ["programs", "inputs"], "All supported programs, points, weight vectors and numbers of weights.",
 "Reverse sweeps restore overwritten values in an order that depends on the whole program; unit tests reverse one operation at a time.",
 [S+"fo_rev.cpp", S+"drivers/drivers.cpp", S+"interfaces.cpp"], [("adjoint propagation and restoring of Taylors", "ADOL-C/src/fo_rev.cpp")],
 PBT+"random programs, differential against a power-series reference", EXP)
prop("C04", "Higher-order forward sweeps deliver the exact Taylor coefficients",
 "For every degree and number of directions, forward propagation of a polynomial input path delivers exactly the Taylor coefficients of the "
 "output path, whichever entry point is used and whichever degree is kept.",
 ["programs", "inputs"], "All supported programs, points, degrees, direction counts and input paths.",
 "Tests use a handful of degrees of single operations.", [S+"uni5_for.cpp", S+"interfaces.cpp", S+"convolut.cpp"],
 [("Taylor propagation recurrences", "ADOL-C/src/uni5_for.cpp (hos/hov_forward)"), ("convolution", "ADOL-C/src/convolut.cpp")],
 PBT+"random programs, differential against a power-series reference", EXP)
prop("C05", "Higher-order reverse sweeps deliver the exact adjoint paths",
 "After a keeping forward sweep of some degree, higher-order reverse sweeps in scalar, vector, per-order-weight and over-direction form deliver the "
 "exact Taylor coefficients of the weighted Jacobian along the path, and the reported structure of the result never marks a nonlinear dependence as weaker than it is.",
 ["programs", "inputs"], "All supported programs, points, degrees, paths, weights.",
 "Restoring of Taylor coefficients and the adjoint convolutions interact over the whole program; tests reverse single operations at low degree.",
 [S+"ho_rev.cpp", S+"interfaces.cpp", S+"convolut.cpp"], [("higher-order adjoint recurrences", "ADOL-C/src/ho_rev.cpp")],
 PBT+"random programs, differential against a power-series reference", EXP)
prop("C06", "Easy drivers deliver exact Hessians, Jacobians and Newton steps",
 "Hessians, Hessian-vector and Lagrangian products, gradients, Jacobians in any number of runs and Jacobian solves deliver the exact "
 "quantities for every call history on a tape, and never reuse results that belong to another point or another recording.",
 ["programs", "inputs", "histories"], "All supported programs, points and sequences of driver calls, with re-recordings in between.",
 "Driver caches depend on the call history; tests call each driver once.", [S+"drivers/drivers.cpp"],
 [("drivers and jac_solv cache", "ADOL-C/src/drivers/drivers.cpp")], PBT+"random programs and driver-call histories against a power-series reference", EXP)
prop("C07", "Derivative tensors and inverse tensors hold the exact mixed derivatives",
 "All mixed directional derivatives up to any order of any supported function, evaluated in one call with any number of directions, equal the true "
 "derivatives and are found where the address function says. The inverse evaluation returns the derivatives of the implicitly defined inverse function.",
 ["programs", "inputs", "histories"], "All supported programs, points, degrees, seed matrices, and sequences of calls with different sizes.",
 "Interpolation coefficients are cached between calls and built in batches; tests evaluate two fixed tensors.",
 [S+"drivers/taylor.cpp"], [("interpolation of tensors from univariate Taylor series", "ADOL-C/src/drivers/taylor.cpp")],
 PBT+"random programs, differential against multivariate power series", EXP)
prop("C08", "ODE drivers deliver the Taylor coefficients of the exact solution",
 "For a recorded right-hand side, the forward driver extends any prefix of Taylor coefficients of an autonomous ODE solution to any degree with any "
 "scaling, and the accumulation driver turns reverse results into the total derivatives with respect to the initial state, with or without structure information.",
 ["programs", "inputs", "histories"], "All supported right-hand sides, states, degrees, scalings, start degrees and call sequences.",
 "Tests integrate one or two fixed systems.", [S+"drivers/odedrivers.cpp"], [("forode, accode", "ADOL-C/src/drivers/odedrivers.cpp")],
 PBT+"random programs, differential against Picard iteration in power series", EXP)
prop("C09", "Lie derivative drivers equal the repeated Lie derivatives",
 "For recorded vector fields, output maps, covector fields and duals, the Lie drivers return the exact repeated Lie derivatives, their gradients, Lie brackets and "
 "covector derivatives up to the requested order, scaled as documented.", ["programs", "inputs"],
 "All supported vector fields, output maps, orders and points.", "Tests use one or two fixed systems.", [S+"lie/adolc_lie_c.cpp", S+"lie/adolc_lie.cpp"],
 [("Lie drivers over forode and reverse sweeps", "ADOL-C/src/lie/adolc_lie_c.cpp")], PBT+"random vector fields against directly computed Lie derivatives", EXP)
prop("C10", "Results do not depend on buffer sizes or on where the tape lives",
 "Whatever sizes are chosen for the operation, location, value and Taylor buffers, by setter, by resource file or by the recording call, and whether the "
 "tape and the Taylor store fit into memory or are spilled to files, forced to files or read back, every sweep gives bitwise the same result.",
 ["configurations", "programs", "histories"], "All programs, all buffer size combinations, recordings kept in memory or on disk, repeated sweeps.",
 "The test suite runs with default buffers that never spill; block boundaries fall on every possible instruction only under generated sizes.",
 [S+"valuetape/tapeinfos.cpp", S+"valuetape/valuetape.cpp", S+"valuetape/globaltapevarscl.cpp", I+"valuetape/tapeinfos.h"],
 [("block-wise reading and writing of the tape streams", "ADOL-C/src/valuetape/tapeinfos.cpp"), ("Taylor stack", "ADOL-C/include/adolc/valuetape/tapeinfos.h")],
 PBT+"random programs under random buffer sizes, bitwise metamorphic comparison", EXP)
prop("C11", "Tapes are independent of each other under every history",
 "Creating, recording, nesting, re-recording, switching between and evaluating tapes in any order never changes what any other tape computes: every tape behaves as its last complete recording.",
 ["histories", "programs"], "All interleavings of operations on several tapes.",
 "Tests use one tape per case, evaluated right after recording.", [S+"tape_interface.cpp", I+"tape_interface.h", S+"valuetape/valuetape.cpp"],
 [("tape registry, current tape and tape stack", "ADOL-C/include/adolc/tape_interface.h")], "stateful model-based testing of tape histories", EXP)
prop("C12", "Active variables may live, die and move in any order",
 "For every order of construction, copying, moving, assignment, destruction and container growth of active variables, before, during and after recordings, live variables never share storage, keep "
 "their values, and the recorded tape computes what the program computed.", ["histories", "programs"],
 "All lifetimes of active variables, arrays of them, contiguity requests and nested scopes.", "Locations are recycled depending on the whole allocation history; tests have a few fixed patterns.",
 [S+"storemanager.cpp", I+"storemanager.h", S+"adouble.cpp"], [("location managers", "ADOL-C/src/storemanager.cpp")], "stateful model-based testing of variable lifetimes", EXP)
prop("C13", "A control-flow change is reported, never silently wrong",
 "If a recorded comparison of active variables comes out differently at a new point, every sweep reports the branch switch by a negative return code; "
 "otherwise it reports a non-negative one that tells ties and changed minima, and the results are right.",
 ["programs", "inputs"], "All programs with comparisons, conditional assignments, minima, maxima and absolute values, at points on both sides of every switch.",
 "Tests check a few comparisons, not every operator with every operand kind at every side and every sweep.", [S+"uni5_for.cpp", S+"adouble.cpp"],
 [("comparison opcodes and return code", "ADOL-C/src/uni5_for.cpp")], PBT+"random branching programs against a model of the return code", EXP)
prop("C14", "Tape parameters can be changed without re-recording",
 "After replacing a tape's parameters, every sweep and driver gives the results of the program with the new parameter values, for every subset and order of uses of the parameters and for repeated changes.",
 ["programs", "inputs", "histories"], "All programs with parameters, all parameter vectors, sequences of changes and sweeps.",
 "Tests change one or two parameters of one fixed function.", [S+"pdouble.cpp", S+"valuetape/valuetape.cpp", S+"valuetape/tapeinfos.cpp"],
 [("parameter store", "ADOL-C/src/valuetape/valuetape.cpp")], PBT+"random programs with parameters against the reference at new parameters", EXP)
prop("C15", "Sparse Jacobians equal dense Jacobians; patterns cover all dependencies",
 "Sparse Jacobian drivers return, for every option and storage format, exactly the non-zero structure they report with the exact values, the structure covers every entry that can be non-zero, and reusing a structure at other points stays correct.",
 ["programs", "inputs", "configurations"], "All supported programs, all option combinations (bit pattern or index domains, safe or tight, forward or reverse, direct or indirect recovery, block patterns).",
 "Tests use a few fixed functions with a few option vectors.", [S+"sparse/sparsedrivers.cpp", S+"sparse/sparsedrivers_c.cpp", I+"sparse/sparsedrivers.h", S+"valuetape/sparseinfos.cpp"],
 [("pattern propagation, colouring and recovery", "ADOL-C/src/sparse, ADOL-C/src/valuetape/sparseinfos.cpp")], PBT+"random programs, differential against the exact dense Jacobian", EXP)
prop("C16", "Sparse Hessians equal dense Hessians; patterns cover all interactions",
 "Sparse Hessian drivers return, for every option and storage format, the exact second derivatives on a structure that covers every entry that can be non-zero, and reusing a structure at other points stays correct.",
 ["programs", "inputs", "configurations"], "All supported scalar programs, option combinations and histories of repeated calls.",
 "Tests use a few fixed functions with a few option vectors.", [S+"sparse/sparsedrivers.cpp", S+"sparse/sparsedrivers_c.cpp", S+"valuetape/sparseinfos.cpp", S+"uni5_for.cpp"],
 [("nonlinear interaction domains, colouring and recovery", "ADOL-C/src/uni5_for.cpp (nonl_ind), ADOL-C/src/valuetape/sparseinfos.cpp")], PBT+"random programs, differential against the exact dense Hessian", EXP)
prop("C17", "Dependency propagation never misses a dependence",
 "Boolean forward and reverse propagation and index-domain propagation report every dependence that exists, tight mode at the evaluated point and safe mode at every point, and report nothing that no path in the program connects.",
 ["programs", "inputs"], "All supported programs, seeds of any width, safe and tight mode.",
 "Tests compare single operations with fixed patterns.", [S+"uni5_for.cpp", S+"fo_rev.cpp"], [("int_forward, int_reverse, indopro, nonl_ind sweeps", "ADOL-C/src/uni5_for.cpp, ADOL-C/src/fo_rev.cpp")],
 PBT+"random programs against a data-flow model of the program", EXP)
prop("C18", "Abs-normal form reproduces piecewise smooth functions",
 "For every abs-smooth program the abs-normal form has one switch per absolute value, maximum and minimum, reproduces the piecewise linearisation exactly at every increment, dense and sparse forms agree, and the piecewise-linear sweeps deliver directional "
 "derivatives and generalised gradients of it.", ["programs", "inputs"], "All abs-smooth programs, points (including kinks), directions and signatures.",
 "Tests use a few fixed functions.", [S+"drivers/psdrivers.cpp", S+"drivers/absnormalform.cpp", S+"uni5_for.cpp", S+"fo_rev.cpp"],
 [("piecewise-linear sweeps and abs-normal drivers", "ADOL-C/src/drivers/psdrivers.cpp")], PBT+"random abs-smooth programs against an independently evaluated piecewise linearisation", EXP)
prop("C19", "External functions behave as if their body had been recorded",
 "A program that calls external functions, of either interface and any argument shapes, gives in every supported mode the values and derivatives of the same program with the function body recorded inline, and the callbacks see consistent arguments.",
 ["programs", "inputs", "histories"], "All programs mixing external calls with ordinary instructions, any number of calls, nesting, array sizes, tape buffer sizes.",
 "Tests call one external function once.", [S+"externfcts.cpp", S+"externfcts2.cpp", I+"edfclasses.h"], [("external differentiated functions", "ADOL-C/src/externfcts.cpp, externfcts2.cpp")],
 PBT+"random programs with external calls, differential against inline recording", EXP)
prop("C20", "Checkpointing changes memory use, never results",
 "For every number of time steps and checkpoints, with or without checking of the number of steps, derivatives of a checkpointed time-stepping loop equal those of the plainly recorded loop, in every supported mode, and the schedule never uses more checkpoints than allowed.",
 ["programs", "inputs", "configurations"], "All time-step functions, numbers of steps and of checkpoints.",
 "Tests use one or two step functions with fixed numbers.", [S+"checkpointing.cpp", S+"revolve.cpp", I+"checkpointing.h"], [("revolve schedule", "ADOL-C/src/revolve.cpp"), ("checkpointed external function", "ADOL-C/src/checkpointing.cpp")],
 PBT+"random step functions and schedules, differential against the unrolled recording", EXP)
prop("C21", "Fixed-point iterations differentiate as the implicit function",
 "Derivatives through a contractive fixed-point iteration equal those of the implicitly defined fixed point within the requested accuracy, in forward and reverse mode, for every starting guess.",
 ["programs", "inputs"], "All contractive iterations, dimensions, parameters and tolerances.", "Tests use one scalar iteration.", [S+"fixpoint.cpp", I+"fixpoint.h"],
 [("fixed-point external function", "ADOL-C/src/fixpoint.cpp")], PBT+"random contractions, differential against the implicit function theorem", EXP)
prop("C22", "Runtime array subscripts stay active",
 "Programs that read and write arrays through active subscripts reproduce the values and derivatives of the plain program at every point, including points where the subscripts differ from the recording.",
 ["programs", "inputs"], "All programs with reads, writes, compound updates and conditional assignments through active subscripts.",
 "Tests use fixed subscripts.", [S+"advector.cpp", I+"advector.h", S+"uni5_for.cpp", S+"fo_rev.cpp", S+"ho_rev.cpp"], [("subscript opcodes", "ADOL-C/src/advector.cpp")],
 PBT+"random programs with subscripts, differential against plain arrays", EXP)
prop("C23", "Traceless forward types deliver exact values and derivatives",
 "The traceless scalar types deliver value, directional derivatives for any number of directions, index domains and higher-order coefficients of every supported program exactly.",
 ["programs", "inputs", "configurations"], "All supported programs, numbers of directions.", "Tests check single operations with one or two directions.",
 [S+"adouble_tl.cpp", I+"adtl.h", I+"adtl_hov.h", I+"adtl_indo.h"], [("traceless operator overloading", "ADOL-C/include/adolc/adtl.h")], PBT+"random programs, differential against a power-series reference", EXP)
prop("C24", "C and Fortran-style interfaces equal the C++ interface",
 "Every function of the C language interface and of the Fortran-callable wrappers returns what the C++ interface returns for the same recording and arguments, including array layouts.",
 ["programs", "inputs"], "All supported operations, drivers and dimensions.", "Few or no tests reach the wrappers.",
 [S+"interfacesf.cpp", S+"fortutils.cpp", S+"drivers/driversf.cpp", S+"drivers/psdriversf.cpp", S+"drivers/odedriversf.cpp", "ADOL-C/c_interface/ADOLC_TB_interface.cpp", "ADOL-C/c_interface/ADOLC_TL_interface.cpp", "ADOL-C/c_interface/driver_interface.cpp"],
 [("wrappers", "ADOL-C/c_interface, ADOL-C/src/*f.cpp")], PBT+"random programs through the wrappers, differential against the C++ interface", EXP)
prop("C25", "Misuse is reported and leaves the library usable",
 "Documented misuse (wrong dimensions, unknown or still recording tapes, missing forward sweeps, wrong degrees) raises the documented error and never corrupts memory, and tapes used correctly afterwards give correct results.",
 ["histories", "inputs"], "All kinds of misuse at any point of a history.", "Tests assert a few exceptions and then stop.", [S+"adolcerror.cpp", I+"adolcerror.h", S+"uni5_for.cpp", S+"fo_rev.cpp", S+"ho_rev.cpp", S+"valuetape/valuetape.cpp"],
 [("checks raising errors", "ADOL-C/src/adolcerror.cpp and callers")], "stateful testing with injected misuse", EXP)
prop("C26", "Threads do not disturb each other",
 "Threads that record and evaluate their own tapes concurrently get bitwise the results they get alone, without data races inside the library.",
 ["schedules", "programs", "histories"], "All thread interleavings of independent workloads.", "One test runs a fixed parallel loop.",
 [S+"tape_interface.cpp", I+"tape_interface.h", S+"drivers/taylor.cpp", S+"interfaces.cpp", S+"storemanager.cpp"], [("thread-local tape registry", "ADOL-C/include/adolc/tape_interface.h")],
 "random concurrent workloads, differential against sequential runs, under ThreadSanitizer", EXP+"Schedules are those the operating system produced.")
prop("C27", "Special points follow the documented conventions",
 "At zeros of powers, ties of minima and maxima, kinks of absolute values and steps, every sweep gives the documented or the exact limiting derivative, consistently between modes, and never an unrelated value.",
 ["programs", "inputs"], "All operations with documented conventions at all their special points, alone and inside larger programs, all degrees.",
 "Tests check one convention at one point in one mode.", [S+"uni5_for.cpp", S+"fo_rev.cpp", S+"ho_rev.cpp"], [("special cases per opcode", "ADOL-C/src/uni5_for.cpp")],
 PBT+"generated special points, exact limits and cross-mode metamorphic relations", EXP)
prop("C28", "Tape documentation lists exactly the recorded instructions",
 "Documenting a tape writes a well-formed document with exactly one numbered entry per recorded instruction, showing its operation, operands and constants, so that executing the listing reproduces the results of the tape; in builds that list values, "
 "these and the returned dependents are the values at the given point. The tape, its statistics, its later evaluations and the arguments of the caller are unchanged.",
 ["programs", "inputs"], "All recorded programs and points, for both kinds of listing.", "One or two tests only run it; no test reads the listing.", [S+"tapedoc/tapedoc.cpp"], [("tape_doc", "ADOL-C/src/tapedoc/tapedoc.cpp")],
 PBT+"random programs, parsed listing executed by an interpreter and compared with the tape", EXP)
prop("C29", "Traceless types behave the same with reference counting and without pool",
 "In builds with traceless reference counting and without the memory pool, the traceless types give the values, derivatives and index domains of the default build for every program, and the reported number of live variables is exact after every construction, copy, move, assignment and destruction.",
 ["configurations", "programs", "inputs", "histories"], "All programs and all histories of traceless variables in that configuration.", "The test suite runs only the default build.", [I+"adtl.h", I+"adtl_hov.h", S+"adouble_tl.cpp", S+"adouble_tl_hov.cpp", "CMakeLists.txt"],
 [("refcounter", "ADOL-C/include/adolc/adtl.h"), ("refcounter", "ADOL-C/include/adolc/adtl_hov.h")], PBT+"random programs and variable histories on the other build against exact power series and a model count", EXP)
prop("C30", "Array helpers give distinct zeroed storage and exact layouts",
 "The allocation helpers every driver call relies on give distinct, contiguous, zeroed elements (or the identity) that keep their contents whatever is allocated or released meanwhile, tables laid over caller memory use exactly the documented space, "
 "empty shapes give null pointers, and conversions to and from column-major layout are exact and change nothing else.",
 ["inputs", "histories"], "All shapes and all histories of allocation, use and release.", "No test calls most of them; drivers are tested with a few small shapes.", [S+"adalloc.cpp", S+"fortutils.cpp", I+"adalloc.h"],
 [("allocation and population", "ADOL-C/src/adalloc.cpp"), ("column-major conversion", "ADOL-C/src/fortutils.cpp")], "model-based stateful testing of allocation histories", EXP)
