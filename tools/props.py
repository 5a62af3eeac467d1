"""Single source for properties.jsonl: run `python3 tools/props.py` from /verif."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                     observe_at=list(observe), hook_needed=hook)))
R = "src/rxn_network/"

p("C01", "Reaction balancing is sound, complete and honestly reported",
  "When balancing a list of reactants and products reports a balanced reaction with zero errors, every element is conserved, every listed reactant has a strictly negative and every listed product a strictly positive coefficient. "
  "If such a strictly-signed assignment exists and is unique up to scale, balancing reports it (and reports exactly one constraint); the number of constraints reported is the number of stoichiometric degrees of freedom. "
  "If no non-zero conserving assignment exists, the result is flagged as unbalanced, and a reaction built directly from coefficients is flagged balanced exactly when its elements are conserved.",
  ["inputs"], "all lists of reactant and product compositions (any number of phases and elements, with or without solutions)",
  "tests balance a handful of textbook equations; the guarantee is over every stoichiometry matrix, including rank-deficient, unsolvable and wrong-side cases.",
  [R+"reactions/basic.py", R+"reactions/computed.py", R+"reactions/open.py"],
  [("pseudo-inverse balancing over constraint subsets", R+"reactions/basic.py"), ("balanced flag computed in constructor", R+"reactions/basic.py")],
  observe=["BasicReaction.balance/from_formulas", "ComputedReaction.balance", "OpenComputedReaction.balance"])

p("C02", "Reaction transformations preserve the reaction they transform",
  "Copying, reversing and normalizing a reaction (to a phase or an element, by any factor), in any sequence, yields a reaction of the same kind (closed or open with the same chemical potentials) whose coefficients are those of the original up to the requested sign and scale; reversing twice is the identity, reversing negates the energy, and normalization achieves exactly the requested amount without modifying the original. "
  "Two reactions compare equal exactly when they assign the same coefficients to the same reactants and products (and, for computed reactions, have the same energy), and equal reactions have equal hashes.",
  ["inputs", "histories"], "all reactions and all finite sequences of copy / reverse / normalize operations",
  "tests apply one operation to one reaction; the guarantee is over all sequences, scales, integer or float coefficients, and open reactions.",
  [R+"reactions/basic.py", R+"reactions/computed.py", R+"reactions/open.py"],
  [("copy/reverse/normalize_to/normalize_to_element/__eq__/__hash__", R+"reactions/basic.py")],
  observe=["coefficients", "energy", "type and chempots", "==", "hash"])

p("C03", "Reaction energies and fractions follow from the phases",
  "The energy of a reaction is the coefficient-weighted sum over its phases of their energies per formula unit, and for a reaction open to an element each phase's energy is reduced by that element's chemical potential times its amount, except for the pure open element itself. "
  "Energy per atom divides by the number of (non-open) atoms of one side; atomic and molar fractions of either side of a balanced reaction are each phase's share of that side and sum to one; element amounts count one side.",
  ["inputs"], "all balanced closed and open reactions, entries scaled to any number of formula units, and chemical potentials",
  "tests compare a few stored floats; the guarantee relates energy, fractions and chemical potentials for every stoichiometry and open element.",
  [R+"reactions/computed.py", R+"reactions/open.py", R+"reactions/basic.py"],
  [("energy property", R+"reactions/computed.py"), ("grand potential entries", R+"reactions/open.py")],
  observe=["energy", "energy_per_atom", "*_fractions", "get_el_amount", "energy_uncertainty"])

p("C04", "Enumerated reactions are always valid and match the request",
  "Every reaction returned by any enumerator is balanced with every phase strictly on its side, is not an identity, uses only the supplied entries (with requested precursors and targets represented by their lowest-energy entry, interpolated when absent), has at most n phases on each side besides open phases, and respects the requested precursors, targets, exclusivity and chemical system: with exclusive precursors all reactants are precursors (or open phases), with non-exclusive precursors at least one reactant is, and correspondingly for targets and products; the elements of the requested chemical system all take part. "
  "No reaction is returned twice when duplicate removal is requested, running several enumerators returns the union of their reactions once each, and the supplied entry set is unchanged.",
  ["inputs", "configurations"], "all entry sets, n, precursor/target/exclusivity/filter options, closed and open enumerators",
  "tests check counts and a few members on one Mn-O-Y data set; the guarantee is over every entry set and option combination.",
  [R+"enumerators/basic.py", R+"enumerators/utils.py", R+"enumerators/minimize.py"],
  [("combination filters and reaction construction", R+"enumerators/basic.py")],
  observe=["BasicEnumerator.enumerate", "BasicOpenEnumerator.enumerate", "MinimizeGibbsEnumerator.enumerate", "MinimizeGrandPotentialEnumerator.enumerate", "run_enumerators"])

p("C05", "Combinatorial enumeration misses no reaction",
  "For the combinatorial enumerators, every reaction with at most n reactants and n products drawn from the entries, over two to nine elements, whose sides span the same elements (not counting the elements of the open phases, of which any non-empty combination is added to one side by the open enumerator), that can be balanced uniquely with all phases strictly taking part and that satisfies the requested precursor, target and chemical system constraints is returned, in both directions when both satisfy the request. "
  "With the default limit on constraints, reactions whose balancing is under-determined are omitted and nothing else is returned.",
  ["inputs", "configurations"], "all entry sets, n, and enumerator options",
  "tests assert total counts for one chemical system; completeness is a for-all over combinations that a count of a single example cannot settle.",
  [R+"enumerators/basic.py", R+"enumerators/utils.py"],
  [("chemical-system grouping of combinations", R+"enumerators/utils.py"), ("enumerate loop", R+"enumerators/basic.py")],
  observe=["set of reactions returned by enumerate"])

p("C06", "Enumeration result is independent of parallel scheduling",
  "The collection of reactions returned by an enumerator is the same for every chunk size, limit on the number of jobs, number of CPUs and order in which parallel tasks complete: each unit of work contributes exactly once and none is dropped or repeated, every submitted task is run and collected exactly once, and the number of tasks stays within the job limit (a trailing empty one aside).",
  ["schedules", "configurations"], "all task completion orders, chunk sizes >= 1, job limits >= 1, CPU counts >= 1",
  "tests run one default chunking on one machine; completion order and throttling are nondeterministic.",
  [R+"enumerators/basic.py", R+"utils/ray.py", R+"utils/funcs.py"],
  [("chunk submission and collection loop", R+"enumerators/basic.py")],
  state=[("in-flight task references", "submitted but uncollected chunks", R+"enumerators/basic.py")],
  observe=["enumerate output vs schedule", "task submissions and completions"])

p("C07", "Minimizing enumerators return the thermodynamically predicted products",
  "For each one or two reactant phases admitted by the request, the energy-minimizing enumerators return the reactions predicted by the lower envelope of (grand) energy along the line between the two reactants - one at every kink and for every metastable end member, identities left out - and nothing that lies above the envelope: no other products from the same entries at the same mixing ratio release more energy. "
  "In the grand-potential form energies are taken at the given chemical potential, the open element is added on the side that needs it, and the returned reactions are open reactions at that chemical potential.",
  ["inputs"], "all entry sets, reactant pairs and chemical potentials",
  "tests check reaction counts for one data set; optimality is a for-all over competing product combinations.",
  [R+"enumerators/minimize.py", R+"enumerators/utils.py"],
  [("interfacial reactivity kinks", R+"enumerators/minimize.py")],
  observe=["MinimizeGibbsEnumerator.enumerate", "MinimizeGrandPotentialEnumerator.enumerate"])

p("C08", "A reaction set stores exactly the reactions put into it",
  "A reaction set built from reactions, or extended with further reactions or another set over the same entries, contains exactly those reactions with multiplicity: iterating yields as many reactions as its length, each with the original entries, coefficients and attached data, under the open-element condition given for the set (or, when none is given, the one all its reactions share), regardless of how sizes, polymorphs and temperatures are mixed. "
  "Extending, filtering or querying returns a new set and leaves the original unchanged.",
  ["inputs", "histories"], "all finite sequences of build / add / combine / filter / query operations",
  "tests build a set once from one fixture and compare lengths.",
  [R+"reactions/reaction_set.py"],
  [("from_rxns index/coeff/data arrays grouped by size", R+"reactions/reaction_set.py")],
  state=[("indices, coeffs, all_data", "reactions grouped by number of phases", R+"reactions/reaction_set.py")],
  observe=["get_rxns", "len", "add_rxns", "add_rxn_set"])

p("C09", "Duplicate filtering keeps exactly one reaction per class",
  "Filtering duplicates returns a subset of the reactions in which every class of reactions that are positive multiples of one another over the same entries is represented exactly once, or by the explicitly ensured reactions of that class. "
  "Reverse reactions and reactions with different entries are never merged; filtering is idempotent and gives an equivalent result in serial and in parallel for any number of CPUs, and fails only when an ensured reaction is absent.",
  ["inputs", "schedules"], "all reaction sets, ensured reactions, and CPU counts / completion orders",
  "tests filter one fixture in parallel mode and compare counts.",
  [R+"reactions/reaction_set.py"],
  [("grouping by entry indices and multiple detection", R+"reactions/reaction_set.py")],
  observe=["filter_duplicates(ensure_rxns, parallelize)"])

p("C10", "Reaction set queries return exactly the matching reactions",
  "Querying by reactants returns exactly the reactions all of whose reactants are among the given formulas, and querying by product exactly the reactions that form the given formula, whatever the order of entries and for every polymorph of the formula. "
  "Asking for the answer as a set gives the same reactions as asking for a list, including when nothing matches.",
  ["inputs"], "all reaction sets and query formulas",
  "tests query formulas that happen to be away from boundary positions.",
  [R+"reactions/reaction_set.py"],
  [("index masks", R+"reactions/reaction_set.py")],
  observe=["get_rxns_by_reactants", "get_rxns_by_product"])

p("C11", "Changing conditions recomputes energies and nothing else",
  "Setting a chemical potential or a temperature on a reaction set, alone, repeatedly or over a list of temperatures, returns a set with the same reactions (phases, coefficients, polymorph identity, open element) whose energies are those of the phases at the new condition; the original set is unchanged and the result depends only on the last condition set, not on the sequence.",
  ["inputs", "histories"], "all reaction sets of temperature-dependent entries and all sequences of condition changes",
  "tests change conditions once on one set without polymorphs.",
  [R+"reactions/reaction_set.py", R+"reactions/computed.py", R+"reactions/open.py"],
  [("set_chempot, set_new_temperature, compute_at_temperatures", R+"reactions/reaction_set.py")],
  observe=["set_chempot", "set_new_temperature", "compute_at_temperatures", "get_new_temperature"])

p("C12", "The network graph mirrors its reactions",
  "After building, the network has exactly one reactant node per set of reactant phases and one product node per set of product phases of its reactions, one edge per reaction from its reactant node to its product node carrying that reaction and its cost, and a free zero-cost edge from a product node to every reactant node with the same phases and, once precursors are set, to every reactant node whose phases are all available among those products and the precursors (unless the precursors alone suffice), and no other edges apart from those of precursor and target nodes. "
  "Every reaction of the reaction set is reachable as an edge and every edge of the network is justified.",
  ["inputs"], "all reaction sets, precursors and cost functions",
  "tests count nodes and edges of a single network.",
  [R+"network/network.py", R+"network/entry.py"],
  [("build", R+"network/network.py"), ("loopback edge construction", R+"network/network.py")],
  state=[("graph", "directed multigraph of phase-set nodes", R+"network/network.py")],
  observe=["network.graph nodes and edges"])

p("C13", "Network precursors and target depend only on the last ones set",
  "After any sequence of setting precursors and targets on a built network, its graph is the one that a freshly built network with only the final precursors and target set would have: no edge of earlier precursors or targets remains, none is duplicated and none is missing. "
  "Path finding on it therefore returns the same pathways as on the fresh network and does not alter it, apart from leaving the last requested target set.",
  ["histories"], "all finite sequences of set_precursors / set_target / find_pathways on a built network",
  "tests set precursors and target once, or replace a target once; history-dependence needs sequences.",
  [R+"network/network.py"],
  [("set_precursors / set_target", R+"network/network.py")],
  state=[("graph precursor/target nodes and edges", "mutable part of the network", R+"network/network.py")],
  observe=["graph after each operation", "find_pathways"])

p("C14", "Path finding returns the k cheapest loopless paths in order",
  "For every directed graph with non-negative costs, the k-shortest-path search returns distinct loopless paths from start to end in order of non-decreasing total cost, as many as exist up to k, such that no omitted loopless path is cheaper than a returned one; it leaves the graph unchanged.",
  ["inputs"], "all weighted directed (multi)graphs, start/end nodes and k",
  "tests look at one graph's first paths; optimality quantifies over all alternative paths.",
  [R+"network/network.py", R+"pathways/basic.py"],
  [("Yen's algorithm over a shortest-path routine", R+"network/network.py")],
  observe=["yens_ksp", "ReactionNetwork.find_pathways"])

p("C15", "Found pathways are executable sequences ending in the target",
  "Every pathway returned by path finding is an ordered list of network reactions with their costs such that the reactants of each step are all available from the precursors and the products of the step(s) before, and the last step forms the target; its costs are those of the cost function and its total is the path cost. "
  "The pathways returned for a target are the cheapest ones, in order, and an unreachable target yields no pathways rather than an error.",
  ["inputs", "histories"], "all networks, precursor sets, targets and k",
  "tests assert a few path counts on one network.",
  [R+"network/network.py", R+"pathways/basic.py", R+"pathways/pathway_set.py"],
  [("path to pathway conversion", R+"network/network.py")],
  observe=["find_pathways", "PathwaySet.get_paths"])

p("C16", "Solved pathways conserve mass and make the net product",
  "Every balanced pathway returned by the pathway solver is a combination of distinct candidate reactions with strictly positive multiplicities whose weighted sum equals the net reaction, contains no more reactions than allowed, consumes no phase that is neither a precursor nor produced within the pathway, and carries the correct costs and average cost; none is returned twice and results are in order of non-decreasing cost.",
  ["inputs"], "all candidate pathway sets, net reactions and solver options",
  "tests check the number of solutions on one example.",
  [R+"pathways/solver.py", R+"pathways/balanced.py"],
  [("combinatorial balancing via batched pseudo-inverse", R+"pathways/solver.py")],
  observe=["PathwaySolver.solve"])

p("C17", "The pathway solver finds every balanceable combination",
  "Every set of at most the allowed number of candidate reactions that includes a reaction forming a target, can be combined uniquely with strictly positive multiplicities into the net reaction and passes the requested filters is returned, whatever the chunk size, batch size, number of CPUs or task order; when none exists, or there are fewer candidates than the allowed number, an empty or correspondingly smaller answer is returned instead of an error.",
  ["inputs", "schedules", "configurations"], "all candidate sets, solver options, chunk and batch sizes, CPU counts",
  "tests run one example with default chunking on many CPUs.",
  [R+"pathways/solver.py"],
  [("combination generation, chunking and collection", R+"pathways/solver.py")],
  observe=["PathwaySolver.solve"])

p("C18", "Interdependence filtering removes exactly unrealizable pathways",
  "A balanced pathway is reported as free of interdependent reactions exactly when its reactions can be ordered so that every reaction uses only precursors and products of earlier reactions (phases that no reaction of the pathway produces count as supplied); the solver with this filter on returns exactly the solutions of the solver with it off that are realizable in this sense.",
  ["inputs"], "all pathways and precursor sets",
  "tests check one interdependent pair.",
  [R+"pathways/balanced.py", R+"pathways/solver.py"],
  [("contains_interdependent_rxns", R+"pathways/balanced.py")],
  observe=["BalancedPathway.contains_interdependent_rxns", "PathwaySolver.solve(filter_interdependent)"])

p("C19", "Pathway sets store and compare pathways faithfully",
  "A pathway set yields exactly the pathways it was built from, with their reactions, costs, multiplicities and balanced status, in order. "
  "Two pathways compare equal exactly when they contain the same reactions in the same order with the same costs (and, for balanced pathways, the same multiplicities), never because one is a prefix of the other, and equal pathways have equal hashes; net reaction, multiplicity and average cost are determined by the reactions and coefficients.",
  ["inputs"], "all collections of basic and balanced pathways",
  "tests compare lengths of one fixture.",
  [R+"pathways/pathway_set.py", R+"pathways/basic.py", R+"pathways/balanced.py"],
  [("from_paths / get_paths", R+"pathways/pathway_set.py")],
  observe=["PathwaySet.from_paths", "get_paths", "==", "average_cost", "net_rxn"])

p("C20", "Entry set answers depend only on its current contents",
  "After any sequence of adding, updating, discarding, removing and querying entries, every answer of the entry set (contents, minimum entry by formula, entries list, subsets by chemical system, phase diagram, stability, indices) is the one a freshly constructed set with the same entries would give.",
  ["histories"], "all finite interleavings of mutations and queries of an entry set",
  "tests query fresh sets; stale caches only show in mutate-query-mutate-query histories.",
  [R+"entries/entry_set.py"],
  [("cached lookups with cache clearing on mutation", R+"entries/entry_set.py")],
  state=[("entries", "the set of entries", R+"entries/entry_set.py"), ("cached properties", "derived lookups", R+"entries/entry_set.py")],
  observe=["add/update/discard/remove/add", "get_min_entry_by_formula", "get_subset_in_chemsys", "filter_by_stability", "pd_dict", "build_indices"])

p("C21", "Stability filters and stabilized entries are consistent with the hull",
  "Filtering by stability keeps exactly the entries whose energy above the convex hull of the whole set is at most the tolerance (polymorphs excluded unless requested); stabilizing a phase places it on or below the hull by the requested amount while leaving other entries as they were; interpolated entries have the hull energy; adding random noise or energy adjustments keeps every phase and changes energies by exactly those amounts; and sub-setting by chemical system keeps exactly the entries within it.",
  ["inputs"], "all entry sets, tolerances and targets",
  "tests check a few phases in one chemical system.",
  [R+"entries/entry_set.py", R+"entries/interpolated.py"],
  [("filter_by_stability, get_stabilized_entry, get_interpolated_entry", R+"entries/entry_set.py")],
  observe=["filter_by_stability", "get_e_above_hull", "get_stabilized_entry", "get_entries_with_new_temperature"])

p("C22", "Entry energies at a temperature do not depend on how it was reached",
  "An entry converted to a new temperature equals the entry constructed at that temperature directly, keeps its identity apart from temperature, and converting through any sequence of temperatures and back restores the original energies; temperatures between tabulated ones interpolate the table, and temperatures outside the supported range are rejected; corrections are applied exactly once at every temperature, whether changed on the entry, the entry set or the reaction.",
  ["inputs", "histories"], "all entry kinds and sequences of temperatures in the supported range",
  "tests evaluate single temperatures against stored floats.",
  [R+"entries/gibbs.py", R+"entries/experimental.py", R+"entries/corrections.py", R+"entries/entry_set.py"],
  [("get_new_temperature", R+"entries/gibbs.py")],
  observe=["get_new_temperature", "get_entries_with_new_temperature", "energy", "correction"])

p("C23", "Entry set construction covers every input phase exactly once",
  "Building a Gibbs entry set from computed entries keeps exactly one temperature-dependent entry per stable or requested input phase: phases with tabulated experimental data are represented by that data instead of, not in addition to, the computed estimate when experimental data are enabled, elements are always present, and the requested corrections are applied once. Computed formation energies are measured from the lowest entry of each element, entries keep their metadata, and building one set changes neither the input nor sets built before. Processing the entries keeps exactly the phases within the stability tolerance at the filter temperature plus the required formulas, converted to the final temperature. "
  "The result does not depend on the number of elements or whether entries are grouped into one or several phase diagrams, nor on input order.",
  ["inputs", "configurations"], "all computed entry lists, temperatures and experimental-data options",
  "tests build one chemical system with default options.",
  [R+"entries/entry_set.py"],
  [("from_computed_entries / from_pd", R+"entries/entry_set.py")],
  observe=["GibbsEntrySet.from_computed_entries", "from_pd"])

p("C24", "Interface reaction hulls are exact lower envelopes",
  "For any two precursors and any set of reactions between them, the interface reaction hull's stable points are exactly the vertices of the lower convex envelope of (mixing ratio, energy) including both end members, every reaction's energy above the hull is its vertical distance to that envelope (never negative), and coordinates are the fraction of the second precursor's atoms.",
  ["inputs"], "all finite sets of interface reactions",
  "tests check one interface.",
  [R+"reactions/hull.py"],
  [("ConvexHull and interpolation", R+"reactions/hull.py")],
  observe=["InterfaceReactionHull stable_reactions, get_energy_above_hull, hull_vertices, coords"])

p("C25", "Competition scores agree with their definitions on every hull",
  "Primary and secondary competition and secondary reaction sequences computed for any reaction of an interface hull equal their definition: primary, the energy minus that of the most favourable reaction at any other mixing ratio (or of not reacting); secondary, the mean over all complete orders of splitting the intervals on both sides at hull vertices (a decomposing precursor being a vertex next to it) of the summed reaction energies. They are independent of the algorithm variant used (closed form, recursive, or table lookup for any number of vertices) and of the order of reactions.",
  ["inputs"], "all interface hulls with any number of vertices and any target reaction",
  "tests compare a few numbers for one interface; the algorithms switch on the number of vertices.",
  [R+"reactions/hull.py"],
  [("secondary reactions recursion and Catalan table", R+"reactions/hull.py")],
  observe=["get_primary_competition", "get_secondary_competition", "get_decomposition_energy..."])

p("C26", "Competition calculations are independent of batching",
  "Calculating competition for the reactions to a target assigns to each of them exactly the scores it would get on its own against all reactions of its precursors (and the open element, which is no precursor), for every chunk size, memory, division into reaction sets and completion order: no target reaction is dropped, duplicated or given another's scores, no other reaction is returned, existing data are kept and the conditions (open element, chemical potential) are those requested.",
  ["schedules", "configurations", "inputs"], "all reaction sets, chunk and batch sizes, and task completion orders",
  "tests run one default batching.",
  [R+"jobs/core.py", R+"jobs/utils.py"],
  [("chunked remote competition computation", R+"jobs/core.py")],
  observe=["CalculateCompetitionMaker.make"])

p("C27", "Cost functions are pure functions of the reaction",
  "Evaluating any cost function or calculator on a reaction gives the defined value regardless of what was evaluated before; decorating returns new reactions carrying the value and never alters the originals or their data, and decorating many equals decorating each. "
  "The softplus cost is a strictly increasing function of energy for fixed temperature, is always positive, and a missing parameter is an error, never a silent default.",
  ["inputs", "histories"], "all reactions, parameters, weights and sequences of evaluations",
  "tests evaluate one reaction once.",
  [R+"costs/functions.py", R+"costs/calculators.py", R+"costs/base.py"],
  [("evaluate, calculate, decorate", R+"costs/functions.py")],
  observe=["CostFunction.evaluate", "Calculator.calculate/decorate/decorate_many/calculate_many"])

p("C28", "The Pareto front contains exactly the undominated reactions",
  "For any table of reactions and any choice of metrics and directions, no row of the Pareto front is dominated by any row of the table, and every row left out is dominated or equalled by a row of the front.",
  ["inputs"], "all finite tables, metric columns and min/max directions",
  "tests check one table.",
  [R+"costs/pareto.py"],
  [("get_pareto_front", R+"costs/pareto.py")],
  observe=["get_pareto_front"])

p("C29", "Chemical potential distances are consistent and history-free",
  "For any set of entries, a chemical potential diagram gives every stable phase the domain of chemical potentials satisfying all phases' stability inequalities with equality for its own, within the limits. The distance between two phases is the smallest distance between corners of their domains (so symmetric, non-negative, zero for domains sharing a corner); a metastable phase has the domain it would have if lowered onto the convex hull, and optionally its energy above the hull, as the distance of its plane, is added. The distance of a reaction aggregates, with the function requested, those of all pairs of a reactant and a product and all pairs of products (open elements left out). Every query gives the same answer whatever was queried before, including after a failed query.",
  ["inputs", "histories"], "all entry sets and sequences of queries",
  "tests ask single distances on one diagram.",
  [R+"thermo/chempot_diagram.py", R+"costs/calculators.py"],
  [("domains, metastable domain insertion and distance", R+"thermo/chempot_diagram.py")],
  observe=["ChemicalPotentialDiagram.shortest_domain_distance", "domains", "shortest_elemental_domain_distances"])

p("C30", "Saving and loading any object preserves its behaviour",
  "Converting any entry, entry set, reaction, reaction set, pathway, pathway set, cost function, calculator, enumerator, pathway solver, network (built or not, with or without precursors and target), interface hull, chemical potential diagram, energy correction or task document to its dictionary or JSON form and back yields an object that answers every query as the original does (and equals it where equality is defined), after any changes made before and after, repeatedly and without altering the dictionary or the original.",
  ["inputs", "histories"], "all objects reachable through the public constructors and operations, including empty ones",
  "tests round-trip one instance of a few classes.",
  [R+"reactions/open.py", R+"reactions/reaction_set.py", R+"network/network.py", R+"entries/entry_set.py", R+"pathways/pathway_set.py", R+"reactions/hull.py", R+"network/base.py"],
  [("as_dict / from_dict", "MSONable classes")],
  observe=["as_dict/from_dict", "monty JSON"])

p("C31", "Workflows wire each stage to the stages it depends on",
  "For every maker options, precursors, targets and entries, the workflow built by a network flow maker contains one job per requested stage (entry set unless entries are given, enumeration, network, and pathway solving when a solver is given) for the base branch and, when minimization enumerators are used with an open element, for each given chemical potential, and no other jobs. Each consumes exactly the outputs of the stages it depends on: enumerations the entry set (made to include all precursors and targets), with all requested enumerators at that branch's chemical potential; networks the base reactions plus those of their own chemical potential; solvers the paths and entries of their own network. Running the jobs in any order compatible with the references gives what calling the same stages without a workflow gives. Building flows, deriving makers (update_kwargs) or assigning options afterwards changes no maker or flow built before.",
  ["configurations", "histories"], "all enumerator lists, targets, chemical potentials and maker options",
  "tests build one or two flows.",
  [R+"flows/core.py", R+"jobs/core.py"],
  [("make", R+"flows/core.py")],
  observe=["Flow jobs and output references"])

p("C32", "Parallel task collection yields every result exactly once",
  "Collecting results of any list of parallel tasks yields each task's result exactly once and terminates whatever the completion order, and splitting work into groups loses and repeats nothing for every length and group size.",
  ["schedules", "inputs"], "all task lists, completion orders, lengths and group sizes",
  "tests use one cluster and an ordering that happens to occur.",
  [R+"utils/ray.py", R+"utils/funcs.py"],
  [("to_iterator", R+"utils/ray.py"), ("grouper", R+"utils/funcs.py")],
  observe=["to_iterator", "grouper", "limited_powerset"])

p("C33", "Entry queries to a database cover every sub-system once",
  "Fetching entries for a chemical system from a database returns the entries of every non-empty sub-system of the requested system and only those, each once, whatever the size of the system (large systems are queried differently); searching by formulas, systems and identifiers returns exactly the entries that match; and the entry set made from them (with entries and formulas added by the user) is the one the same entries processed at the requested conditions give.",
  ["inputs", "configurations"], "all chemical systems and query options",
  "the tests need a live database and are skipped.",
  [R+"entries/utils.py"],
  [("query construction", R+"entries/utils.py")],
  observe=["get_all_entries_in_chemsys_from_entry_db", "get_entries_from_entry_db", "process_entries", "GetEntrySetMaker.make"])

p("C34", "Tabulated reaction data describe exactly the reactions of the set",
  "The table made from a reaction set has exactly one row per reaction, sorted by cost; every row's energy, cost, attached data, added elements, separability and precursor complexity are those of that row's reaction, and costs computed in bulk are those of the reactions in iteration order.",
  ["inputs"], "all reaction sets, cost functions and targets",
  "tests look at a table of one set; row/column alignment after sorting and grouping by size must hold for all.",
  [R+"reactions/reaction_set.py"],
  [("to_dataframe, calculate_costs", R+"reactions/reaction_set.py")],
  observe=["ReactionSet.to_dataframe", "ReactionSet.calculate_costs"])

p("C35", "Stored results are retrieved for exactly the conditions asked for",
  "Whatever results of competition calculations have been stored, in whatever order they were completed, repeated or removed, asking for the reactions to a target (written in any way) under an open element, a chemical potential and optionally a workflow id returns the reactions of the most recently completed result stored for exactly these conditions: all of them, with their data, entries and energies, under these conditions; if there is no such result an error is raised, and asking changes nothing.",
  ["histories"], "all histories of storing, repeating, removing and asking, over several targets, conditions and workflows",
  "no test touches the results database; the answer depends on everything stored before, and a wrong one looks like a right one.",
  [R+"utils/database.py", R+"jobs/core.py", R+"jobs/schema.py"],
  [("get_rxns_from_db", R+"utils/database.py"), ("CompetitionTaskDocument", R+"jobs/schema.py")],
  state=[("archive", "stored results with conditions and completion times", "jobflow JobStore")],
  observe=["get_rxns_from_db", "CalculateCompetitionMaker.make"])

p("C36", "Figures and pathway curves show exactly the data they are given",
  "A scatter plot of a reaction table has exactly one mark for each row (in two or three dimensions, whatever the row labels), at the values of the chosen columns, named by the row's reaction and coloured by the chosen column; the marks of the Pareto front are those with values not dominated by any row, and the table is unchanged. Filtering a table by precursors keeps exactly the rows whose reactants are all among them, in order. "
  "The figure of an interface reaction hull marks every reaction once at its mixing ratio and energy and draws the part of the lower envelope with favorable energies, with all marks up to the given limit in view; a drawn network has one mark per node and one colour per chemical system. "
  "The curves of a pathway are the given amounts (smoothed by a running median of three, if wanted); its atoms and compositions are those of these amounts, and the energy cascade is at each temperature the energy of these amounts of phases (one per given formula) above the most stable state of the same composition, per atom.",
  ["inputs"], "all reaction tables (any row labels, ties, one row), interface hulls, networks, and pathways over distinct temperatures",
  "tests only check that a network or a pathway can be plotted; nothing looks at what is drawn.",
  [R+"reactions/plotting.py", R+"reactions/hull.py", R+"pathways/plotting.py", R+"network/visualize.py"],
  [("plot_reaction_scatter, filter_df_by_precursors", R+"reactions/plotting.py"), ("plot, _get_scatter, _get_lines", R+"reactions/hull.py"), ("PathwayPlotter", R+"pathways/plotting.py"), ("plot_network", R+"network/visualize.py")],
  observe=["plot_reaction_scatter", "filter_df_by_precursors", "InterfaceReactionHull.plot", "PathwayPlotter", "plot_network"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for q in P:
            assert len(q["title"]) <= 80, q["id"]
            f.write(json.dumps(q) + "\n")
    print(len(P))
