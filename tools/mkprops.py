#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so the statements are readable)."""
import json, os
P = []
FD = "opm/flowdiagnostics/"
GR = "opm/utility/graph/"
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": state or [],
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe or [],
                          "hook_needed": None}})

prop("C01", "A tracer region is exactly the set of cells flow-connected to the well",
 "For every accepted flow field and every requested injector ID, the reported concentration and per-tracer time of flight cover exactly the cells that can be reached downstream, along connections with non-zero net flow, from the cells in which that ID injects (those cells included), each with a strictly positive concentration (as long as it is large enough for a floating-point number); for producers the same holds upstream. "
 "The reported start points are exactly the requested IDs, and an ID that was not requested reports empty fields.",
 ["inputs"], "all connectivity graphs, flux fields, well configurations and lists of requested IDs, acyclic or with recirculation",
 "Tests look at three hand-drawn grids of at most six cells, without recirculation, reversed flow in the middle, isolated parts or wells in several cells.",
 [FD+"TracerTofSolver.cpp", FD+"Toolbox.cpp", GR+"tarjan.c", FD+"Solution.cpp"],
 [("local ordering of the reachable set", FD+"TracerTofSolver.cpp: computeLocalOrdering"), ("result extraction and zero-tracer check", FD+"TracerTofSolver.cpp: solveLocal"), ("start set loop", FD+"Toolbox.cpp: injDiag/prodDiag")],
 [{"name":"sequence_, component_starts_","meaning":"ordered reachable cells","where":FD+"TracerTofSolver.hpp"}],
 ["Solution::concentration(id)", "Solution::timeOfFlight(id)", "Solution::startPoints()"])

prop("C02", "Tracer concentrations solve the upwind mixing balance",
 "In every cell of a tracer's region, the reported concentration times the cell's total inflow (net flow entering through its connections plus everything injected in the cell by any ID) equals the sum over entering flows of flow times upstream concentration, plus what this ID itself injects in the cell. For producers the same balance holds with all flow directions reversed; equality is up to rounding and the solver's iteration tolerance.",
 ["inputs"], "all flow fields (balanced or not, acyclic or not), several IDs per cell, several cells per ID, any flow unit",
 "Tests check a few concentrations (0.5 and 1.0) on three tiny acyclic cases with equal rates.",
 [FD+"TracerTofSolver.cpp", FD+"Toolbox.cpp", GR+"AssembledConnections.cpp"],
 [("single cell balance", FD+"TracerTofSolver.cpp: solveSingleCell"), ("influx accumulation", FD+"TracerTofSolver.cpp: InOutFluxComputer"), ("source terms per ID and in total", FD+"Toolbox.cpp: assignInflowFlux")],
 [{"name":"influx_, source_term_, local_source_term_","meaning":"divisor and own injection","where":FD+"TracerTofSolver.hpp"}],
 ["Solution::concentration(id)"])

prop("C03", "Tracers partition the fluid: concentrations add up to one and never more",
 "When all injector IDs are requested, every concentration lies in (0,1], and the concentrations of all IDs in a cell sum to one in every cell all of whose upstream flow originates in injectors, and to strictly less than one (possibly zero) in every cell that also receives flow no injector feeds; the same holds for producers with flow directions reversed. Sums are up to rounding and the solver's iteration tolerance.",
 ["inputs"], "all flow fields, with or without unfed inflow, and all ways of distributing injection over IDs and cells",
 "No test adds concentrations over IDs; the property quantifies over every network.",
 [FD+"TracerTofSolver.cpp", FD+"Toolbox.cpp"],
 [("division by total influx incl. all sources", FD+"TracerTofSolver.cpp: solveSingleCell"), ("sum of sources sharing a cell", FD+"Toolbox.cpp: assignInflowFlux")],
 [], ["Solution::concentration(id) over all ids"])

prop("C04", "Time of flight solves the transport balance, globally and per tracer",
 "In every cell with positive concentration and uncapped time of flight, concentration times time of flight times total inflow equals pore volume times concentration plus the sum over entering flows of flow times upstream concentration times upstream time of flight; for the global time of flight the concentration is that of all sources together. "
 "Hence concentration-weighted per-tracer times of flight add up to the global one when all IDs are requested; for producers the same holds with flow reversed, up to rounding and the solver's iteration tolerance.",
 ["inputs"], "all flow fields, pore volume fields (zero volumes included), well configurations and units",
 "Tests check five small acyclic grids with a single pore volume and flux value; no test has cyclic flow, unequal pore volumes or unfed inflow.",
 [FD+"TracerTofSolver.cpp", FD+"Toolbox.cpp"],
 [("upwind contribution and division", FD+"TracerTofSolver.cpp: solveSingleCell"), ("topological order of components", FD+"TracerTofSolver.cpp: computeOrdering, solve")],
 [{"name":"tof_, tracer_","meaning":"solution in visit order","where":FD+"TracerTofSolver.hpp"}],
 ["Solution::timeOfFlight()", "Solution::timeOfFlight(id)"])

prop("C05", "Time of flight is bounded by 200 years; unreached cells get exactly that",
 "The global time of flight has one finite value per cell in [0, 200*365 days]; a cell that no injector (for production: no producer) can be traced to has exactly the upper bound, and so does a cell whose own pore volume takes longer than 200 years to fill with its total inflow. "
 "Longer accumulated travel times are cut to the bound only in what is reported (they still delay the cells further along by their full amount), whereas a cell that is too slow on its own hands exactly the bound to the cells it flows into; the same rules hold for per-tracer values.",
 ["inputs"], "all flow fields and pore volumes, including very slow cells, long chains, isolated cells and cells without inflow",
 "All times in the tests are between 0.5 and 5 seconds, so the 200-year limit is never reached and no cell is unreachable.",
 [FD+"TracerTofSolver.cpp", FD+"TracerTofSolver.hpp"],
 [("cap of slow cells", FD+"TracerTofSolver.cpp: solveSingleCell"), ("post-process threshold", FD+"TracerTofSolver.cpp: solve")],
 [{"name":"max_tof_","meaning":"200 years in seconds","where":FD+"TracerTofSolver.hpp"}],
 ["Solution::timeOfFlight()", "Solution::timeOfFlight(id)"])

prop("C06", "Recirculating flow is resolved simultaneously and always finishes",
 "For every flow field with closed flow loops of any size and number, loops fed only weakly (recirculating up to ten thousand times their feed) or diluted included, the computation finishes without error and the tracer and time-of-flight values in the loops and downstream of them agree, within the iteration tolerance, with the simultaneous solution of the balance equations; cells of a loop that no source feeds are unreached. The values do not depend on how cells are numbered or connections are ordered.",
 ["inputs"], "all flow fields containing cycles: nested and chained loops, opposite parallel connections, strong recirculation, dilute tracers, thousands of cells in one loop",
 "No existing test of the solver contains a cycle at all.",
 [FD+"TracerTofSolver.cpp", GR+"tarjan.c"],
 [("Gauss-Seidel over a strong component", FD+"TracerTofSolver.cpp: solveMultiCell"), ("component detection", GR+"tarjan.c")],
 [{"name":"gauss_seidel_tof_tol_, gauss_seidel_tracer_tol_","meaning":"stop criteria","where":FD+"TracerTofSolver.hpp"}],
 ["Solution::timeOfFlight", "Solution::concentration"])

prop("C07", "Production diagnostics mirror injection diagnostics of the reversed flow",
 "Production diagnostics for a set of IDs equal injection diagnostics obtained for the same pore volumes with every connection flux and every well rate negated, in all reported fields, up to rounding and the solver's iteration tolerance.",
 ["inputs"], "all flow fields, wells with injecting and producing cells, cells holding both injectors and producers",
 "Tests compute production diagnostics in a few cases but never compare with the reversed problem.",
 [FD+"Toolbox.cpp", FD+"TracerTofSolver.cpp"],
 [("exchange of up- and downstream graph", FD+"Toolbox.cpp: prodDiag"), ("sign split of well rates", FD+"Toolbox.cpp: assignInflowFlux")],
 [], ["Toolbox::computeProductionDiagnostics", "Toolbox::computeInjectionDiagnostics"])

prop("C08", "Results depend only on the last accepted inputs, never on the call history",
 "Whatever sequence of assignments, rejected calls, computations and moves preceded it, a diagnostics computation returns what a fresh toolbox would return that was given only the most recently accepted pore volumes, connection fluxes and inflow fluxes. "
 "Each assignment replaces its predecessor completely, computing changes nothing, results for one ID do not depend on which other IDs are requested or in which order, and a result obtained earlier is never altered by later calls.",
 ["histories"], "all sequences of toolbox calls, of any length, including repeated assignment, interleaved injection and production runs and failing calls",
 "Each test makes one assignment of each kind followed by one computation of each kind.",
 [FD+"Toolbox.cpp", FD+"Solution.cpp", FD+"TracerTofSolver.cpp"],
 [("cached up/downstream graphs and their invalidation", FD+"Toolbox.cpp: conn_built_, buildAssembledConnections"), ("clearing of inflow maps", FD+"Toolbox.cpp: assignInflowFlux"), ("reset of solver state between solves", FD+"TracerTofSolver.cpp: prepareForSolve, cleanupLocalSource")],
 [{"name":"conn_built_, downstream_conn_, upstream_conn_","meaning":"cache derived from fluxes","where":FD+"Toolbox.cpp"}],
 ["Toolbox public calls"])

prop("C09", "Unusable requests are rejected by an exception and leave no trace",
 "Pore volumes not matching the number of cells, fluxes not matching the number of connections, inflow in a cell outside the model, and computing before both pore volumes and fluxes were assigned raise a logic error; requesting an ID without injection (for production: without production), or a start cell without injection (production) by anyone, raises a runtime error. "
 "A rejected call leaves the toolbox as it was, and requests without any such fault are accepted, also for models without connections or without cells.",
 ["inputs", "histories"], "all toolbox calls with all combinations of valid and invalid arguments, at every point of a call sequence",
 "Tests provoke one rejection of each of three kinds and never use the toolbox afterwards.",
 [FD+"Toolbox.cpp"],
 [("size checks", FD+"Toolbox.cpp: assignPoreVolume, assignConnectionFlux"), ("start set validation", FD+"Toolbox.cpp: injDiag, prodDiag")],
 [], ["exceptions and later results of Toolbox calls"])

prop("C10", "Only the net flow between cells matters",
 "Diagnostics depend on the connection data only through the flow each connection carries from one cell to another: fluxes of all phases are added per connection, a negative flux is flow from second to first cell, connections with zero net flux or joining a cell to itself have no effect, several connections between the same cells add up, and neither connection order nor numbering of cells changes any result other than by the same renumbering (up to rounding and iteration tolerance). "
 "Scaling all fluxes and well rates by a common factor leaves concentrations unchanged and divides uncapped times of flight by it.",
 ["inputs"], "all connection lists (parallel, opposite, self and zero-flux connections), numbers of phases, orientations, numberings and units",
 "Tests use one phase, one connection per cell pair and one unit.",
 [FD+"Toolbox.cpp", GR+"AssembledConnections.cpp", FD+"ConnectionValues.cpp"],
 [("phase sum and orientation", FD+"Toolbox.cpp: buildAssembledConnections"), ("accumulation of repeated connections", GR+"AssembledConnections.cpp: accumulateConnWeights")],
 [], ["Toolbox results under equivalent inputs"])

prop("C11", "Strong component decomposition is exact and reverse topological",
 "For every directed graph given in compressed row form (self loops, repeated edges, isolated vertices, any order of neighbours), the decomposition lists every vertex in exactly one component, two vertices share a component exactly when each can reach the other, and no component has an edge into a component listed after it.",
 ["inputs"], "all directed graphs of any size and shape",
 "Tests cover eight graphs of at most sixteen vertices with at most one non-trivial component each.",
 [GR+"tarjan.c", GR+"tarjan.h"],
 [("iterative depth-first search with low-links", GR+"tarjan.c: tarjan_local"), ("stacks share memory with the result", GR+"tarjan.c: initialise_stacks, capture_scc")],
 [{"name":"status, link, time, vstack, cstack","meaning":"DFS state","where":GR+"tarjan.c"}],
 ["tarjan()", "tarjan_get_strongcomponent()"])

prop("C12", "Reachable components: exactly what the start points reach, for any workspace",
 "For every graph and every list of start points (empty, repeated or reaching each other included), the restricted decomposition lists exactly the vertices reachable from the start points, each once, with the same component and order guarantees as the full decomposition. "
 "It is independent of what the workspace was used for before and of the workspace being larger than the graph.",
 ["inputs", "histories"], "all graphs, start lists and sequences of calls sharing one workspace",
 "Tests use single start points with a fresh workspace.",
 [GR+"tarjan.c"],
 [("per-start search skipping finished vertices", GR+"tarjan.c: tarjan_reachable_sccs"), ("status reset", GR+"tarjan.c: tarjan_initialise")],
 [{"name":"status","meaning":"vertex state in the workspace","where":GR+"tarjan.c"}],
 ["tarjan_reachable_sccs()"])

prop("C13", "Component order reversal is lossless; memory exhaustion is reported cleanly",
 "Reversing a decomposition yields the same components in opposite order with the vertices inside each component in unchanged order, for components of any size, and reversing twice restores the original. "
 "If memory runs out at any allocation, creating a workspace or decomposition reports failure by a null result, reversal reports failure and leaves the decomposition untouched, nothing is leaked, and a diagnostics computation raises an exception instead of crashing.",
 ["inputs", "fault_sequences"], "all decompositions (components beyond a thousand vertices included) and every allocation failing",
 "Tests reverse components of at most eight vertices and never make an allocation fail.",
 [GR+"tarjan.c", FD+"TracerTofSolver.cpp"],
 [("copy into a second result and swap", GR+"tarjan.c: reverse_scc_core, swap_scc, copy_int_vector"), ("null checks", GR+"tarjan.c: allocate_scc_result, tarjan"), ("error report in the solver", FD+"TracerTofSolver.cpp: computeOrdering, computeLocalOrdering")],
 [], ["tarjan_reverse_sccresult()", "return values under failing allocation"])

prop("C14", "Compressed adjacency equals the connection list, duplicates accumulated",
 "After compression with n rows, the adjacency has n+1 start offsets beginning at zero and ending at the number of neighbours, row i lists exactly the distinct sinks connected from source i in ascending order, and, when weights were given, each entry's weight is the sum of the weights of all connections between that pair; the per-cell neighbourhood range presents the same pairs. This holds for any insertion order, number of repetitions, empty rows, and sinks beyond n.",
 ["inputs"], "all finite lists of weighted or unweighted connections and all sufficient row counts",
 "Tests cover about ten small lists, with all repetitions of the same kind.",
 [GR+"AssembledConnections.cpp", GR+"AssembledConnectionsIteration.hpp"],
 [("bucket sort by double transposition", GR+"AssembledConnections.cpp: CSR::sort, transpose"), ("duplicate removal with element index map", GR+"AssembledConnections.cpp: condenseDuplicates, unique, remapElementIndex"), ("row padding", GR+"AssembledConnections.cpp: CSR::create")],
 [{"name":"ia_, ja_, sa_, elmIdx_","meaning":"CSR arrays and origin map","where":GR+"AssembledConnections.hpp"}],
 ["startPointers()", "neighbourhood()", "connectionWeight()", "cellNeighbourhood()"])

prop("C15", "Graph assembly can be reused: each compression starts a new graph",
 "A successful compression consumes the collected connections, so connections added later form a new graph that shares nothing with earlier ones: not its size, edges or weights, and an immediate second compression gives an empty graph. "
 "Compression with too few rows is rejected as an invalid argument and mixing weighted and unweighted connections as a logic error; a rejected compression leaves both the last compressed graph and the collected connections as they were, and collecting alone does not change the last compressed graph.",
 ["histories"], "all sequences of adding connections and compressing, successfully or not",
 "Tests compress each object at most once.",
 [GR+"AssembledConnections.cpp", GR+"AssembledConnections.hpp"],
 [("clearing of the collected list", GR+"AssembledConnections.cpp: Connections::clear"), ("validation before modification", GR+"AssembledConnections.cpp: compress, CSR::create")],
 [{"name":"i_, j_, v_, max_i_, max_j_","meaning":"collected connections","where":GR+"AssembledConnections.hpp"}],
 ["AssembledConnections public calls"])

prop("C16", "The F-Phi curve is the normalised, travel-time ordered capacity curve",
 "For pore volumes and positive total travel times, the curve has one point more than there are cells, starts at (0,0), ends at (1,1), and its successive increments are each cell's share of the total pore volume and of the total of pore volume over travel time, cells taken by increasing sum of forward and reverse time of flight; hence both coordinates never decrease and F is never below Phi. "
 "Cells whose pore volume exceeds the given fraction of the whole contribute to neither coordinate nor to the totals; fields of different length are rejected with a runtime error, and renumbering cells does not change any point of the curve.",
 ["inputs"], "all pore volume and time fields (ties, zero volumes, outliers) and fractions",
 "Tests check a uniform and a three-cell case, and never use the fraction.",
 [FD+"DerivedQuantities.cpp"],
 [("sort by total travel time", FD+"DerivedQuantities.cpp: flowCapacityStorageCapacityCurve"), ("prefix sums", FD+"DerivedQuantities.cpp: cumulativeNormalized")],
 [], ["flowCapacityStorageCapacityCurve()"])

prop("C17", "Lorenz coefficient and sweep efficiency follow from the curve",
 "The Lorenz coefficient of a curve is twice the area between the curve and the diagonal; for every F-Phi curve it lies in [0,1], and is zero exactly when all counted cells share one travel time. "
 "Sweep efficiency starts at (0,0) and has one further point per curve segment with increasing F, namely dimensionless time dPhi/dF and efficiency Phi plus (1-F) times that time; for every F-Phi curve both never decrease and the efficiency ends at one. Curves with coordinate lists of different length are rejected with a runtime error.",
 ["inputs"], "all curves, in particular all F-Phi curves, with repeated points and flat segments",
 "Tests evaluate four curves of at most six points.",
 [FD+"DerivedQuantities.cpp"],
 [("trapezoid rule", FD+"DerivedQuantities.cpp: lorenzCoefficient"), ("segment slopes", FD+"DerivedQuantities.cpp: sweepEfficiency")],
 [], ["lorenzCoefficient()", "sweepEfficiency()"])

prop("C18", "Well-pair volumes split the flooded and drained pore volume",
 "The volume of an injector-producer pair is the sum over cells of pore volume times injector concentration times producer concentration, hence never negative and zero when the two regions do not overlap. Over all pairs the volumes add up to the pore volume of the model whenever every cell's flow originates in injectors and ends in producers.",
 ["inputs"], "all flow fields, pore volumes and pairs of IDs",
 "One test computes one pair volume on a line of five equal cells.",
 [FD+"DerivedQuantities.cpp"],
 [("intersection of two sparse fields", FD+"DerivedQuantities.cpp: injectorProducerPairVolume")],
 [], ["injectorProducerPairVolume()"])

prop("C19", "Well-pair fluxes allocate every well's rate, identically from both ends",
 "The first pair flux is the sum over the injector's injecting cells of rate times producer concentration (never negative), the second the sum over the producer's producing cells of its (negative) rate times injector concentration (never positive); cells of the other sign in a mixed well do not contribute. "
 "When flow is balanced in every cell the two are equal up to sign, and the pair fluxes of one injector over all producers add up to its total injection rate, and likewise for one producer over all injectors; a pair naming an ID absent from the given rates is rejected with a runtime error.",
 ["inputs"], "all flow fields, balanced and unbalanced, wells with several cells of either sign",
 "One test computes one pair with a single-cell injector and producer.",
 [FD+"DerivedQuantities.cpp", FD+"Toolbox.cpp", FD+"TracerTofSolver.cpp"],
 [("sum over wells cells with sign filter", FD+"DerivedQuantities.cpp: pairFlux, injectorProducerPairFlux")],
 [], ["injectorProducerPairFlux()"])

prop("C20", "A solution stores per-ID fields faithfully and copies are independent",
 "A solution returns for each ID exactly the field last assigned to it, keeps time of flight and concentration of an ID apart, lists each ID with a concentration once, and reports empty fields for unknown IDs. "
 "A copy has equal content and from then on changes to either never show in the other; moving a solution carries its whole content.",
 ["histories"], "all sequences of assignments, copies, moves and queries on any number of solutions",
 "No test of the container exists; it is only used through one toolbox run.",
 [FD+"Solution.cpp", FD+"Solution.hpp"],
 [("deep copy of the implementation", FD+"Solution.cpp: copy constructor"), ("maps by ID", FD+"Solution.cpp: Impl")],
 [{"name":"tof_, tracerToF_, tracer_","meaning":"stored fields","where":FD+"Solution.cpp"}],
 ["Solution public calls"])

prop("C21", "Input containers keep what was put in and refuse what does not fit",
 "A cell set holds each inserted cell exactly once under its given ID, and IDs are equal exactly when their text is and are ordered like their text; a table of connection values starts at zero, keeps each (connection, phase) value independently, and raises a logic error for any access outside its dimensions. "
 "A connectivity graph returns its cell count and its connections in the given order, and refuses with a logic error a list of odd length or naming a cell that is negative or not below the number of cells.",
 ["inputs", "histories"], "all sequences of insertions, writes and reads, all table dimensions and all connection lists",
 "Tests use 2x2 tables and a handful of IDs and cells.",
 [FD+"CellSet.cpp", FD+"ConnectionValues.cpp", FD+"ConnectivityGraph.cpp"],
 [("range checks", FD+"ConnectionValues.cpp: operator()"), ("constructor validation", FD+"ConnectivityGraph.cpp"), ("hash set", FD+"CellSet.cpp")],
 [], ["CellSet, CellSetID, ConnectionValues, ConnectivityGraph public calls"])

prop("C22", "Printing a graph is exact and does not disturb the stream",
 "Writing a weighted compressed graph to a stream gives one line per adjacency entry, by source and then sink, holding source, sink and a decimal weight that reads back to the identical number. The stream's precision and format flags are afterwards what they were before, whatever they were.",
 ["inputs", "configurations"], "all weighted graphs and weights, and all initial floating point formats and precisions of the stream",
 "No test prints a graph.",
 [GR+"AssembledConnections.cpp"],
 [("format change and restoration", GR+"AssembledConnections.cpp: operator<<")],
 [], ["operator<<"])

prop("C23", "Random samples are reproducible, complete and in range",
 "A sample generator returns exactly as many values as asked for, index samples lie between zero and the given maximum, both included and both attainable, and normal samples follow the given mean and standard deviation by shift and scale. Two generators given the same sequence of calls return the same samples, and successive calls on one generator continue its sequence instead of repeating it.",
 ["histories", "inputs"], "all sequences of sampling calls and all sizes and ranges",
 "Random vectors are not tested.",
 ["opm/utility/numeric/RandomVector.cpp"],
 [("default-seeded engine owned by the generator", "opm/utility/numeric/RandomVector.cpp: Impl")],
 [{"name":"gen_","meaning":"engine state","where":"opm/utility/numeric/RandomVector.cpp"}],
 ["RandomVector::index()", "RandomVector::normal()"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
prop("C24", "One solver answers any sequence of solves, for any part of the sources",
 "A tracer and time-of-flight solver made from a flow graph, its reverse, pore volumes and sources answers every local solve, for any subset of the source cells with any positive share of their rates, with exactly the cells downstream of the start cells, concentrations solving the mixing balance with those rates, and times of flight solving the transport balance within the 200-year bound; every global solve gives the times of all sources together. "
 "No answer depends on the solves made before, and a start set with a negative rate is refused with a logic error and disturbs no later solve.",
 ["inputs", "histories"], "all graphs, sources, shares of the sources and sequences of global, local and refused solves",
 "The solver class has no test of its own; the toolbox uses it for one global solve followed by one local solve per ID, always with complete rates.",
 [FD+"TracerTofSolver.cpp", FD+"TracerTofSolver.hpp"],
 [("reset between solves", FD+"TracerTofSolver.cpp: prepareForSolve, cleanupLocalSource"), ("local sources", FD+"TracerTofSolver.cpp: setupLocalSource")],
 [{"name":"is_start_, local_source_term_, tof_, tracer_, sequence_, component_starts_","meaning":"scratch state kept between solves","where":FD+"TracerTofSolver.hpp"}],
 ["TracerTofSolver::solveLocal()", "TracerTofSolver::solveGlobal()"])

prop("C25", "Separate objects do not interfere, also when used at the same time",
 "Calls on objects that share nothing (toolboxes, solvers, graph assemblies, decompositions with workspaces of their own, solutions, input containers, random generators) and calls of the free functions give, when made by several threads at once, exactly what they give when made one after the other, however the threads are interleaved. "
 "The same holds for threads that only read common objects: finished solutions, compressed graphs, decompositions, connectivity graphs, cell sets and flux tables, also as inputs of their own computations.",
 ["schedules", "inputs"], "all numbers of threads, interleavings and combinations of calls on distinct or only read objects",
 "All tests run in one thread; interference through memory with static storage shows only when one call is interrupted by another.",
 [FD+"Toolbox.cpp", FD+"TracerTofSolver.cpp", FD+"Solution.cpp", FD+"DerivedQuantities.cpp", GR+"AssembledConnections.cpp", GR+"tarjan.c", "opm/utility/numeric/RandomVector.cpp"],
 [("working memory owned by the object or the call", FD+"TracerTofSolver.hpp: members"), ("caller-owned workspace", GR+"tarjan.c: tarjan_reachable_sccs"), ("implementation owned by the handle", FD+"Toolbox.cpp: pImpl_")],
 [], ["all public calls"])

with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P))
