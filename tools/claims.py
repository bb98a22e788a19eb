PROOF = 'Every obligation generated from the current sources of the listed functions is discharged for all inputs and iterations; a bounded native run of the same contract (labelled bounded, not counted as proved) searches for a concrete failing input. Assumes: mathematical integers unless stated, the memory model of DESIGN.md, standard library models.'
CLAIMS = {
 'P13': ('proof', T, PROOF),
 'P12': ('proof', T, PROOF + ' The unused class delIterIntSet (linked list) is only covered by the bounded run.'),
 'P14': ('proof', T, PROOF + ' Proved for the int instance, the only one the code base uses; other key types only in the bounded run.'),
 'P15': ('proof', T, PROOF + ' Destructors of the fringes are not under contract.'),
 'P21': ('proof', T, PROOF + ' ipasir_add has an assumed contract (it adds a literal, 0 ends the clause); the meaning is stated for an arbitrary assignment. Assumes lists shorter than 2^30.'),
 'P17': ('proof', T, PROOF + ' Uses the counting lemmas of vcg/cntmath.py, which are proved by induction on every run.'),
 'P01': ('proof', T, PROOF + ' apply() is under contract for task tracking off and no heuristics; with tracking it is covered by P03 and the bounded run.'),
 'P02': ('proof', T, PROOF + ' decompose() assumes the per-method counts numFirstAbstractSubTasks/numFirstPrimSubTasks fit the lists (they are P07 facts), distinct unconstrained entries, and no heuristics attached.'),
 'P03': ('proof', T, PROOF + ' The multiset is defined by recursion over the counted list (vcg/multmath.py, lemmas proved by induction on every run). That apply and decompose call these functions is checked by the bounded run.'),
 'P04': ('proof', T, PROOF + ' A string is its sequence of integer tokens and std::istream >> int& delivers the next one (assumed contract of the standard library); how the text decodes to integers is only exercised by the bounded run. Assumes a terminated line with fewer than 2^31 entries.'),
 'P05': ('proof', T, PROOF + ' The fact-to-action tables filled while parsing are checked by the bounded run only.'),
 'P06': ('proof', T, PROOF + ' Transitive closure is stated as: contains the constraints, transitive, and contained in an arbitrary transitive relation that contains them. Assumes methods with fewer than 2^15 subtasks. The report of total order (isMethodTotallyOrdered, a recursive search over std::map) is checked by the bounded run only.'),
 'P07': ('proof', T, PROOF + ' The sorted distinct-subtask lists filled while parsing are checked by the bounded run only.'),
 'P08': ('proof', T, PROOF + ' Reachability is a reflexive and transitive relation that contains the edges; that it is the smallest such relation is used, as an instance of that definition for one set of vertices, where a search has ended. Both component searches (graph and class Model) are proved in full, with termination of the recursion; Model::calcSCCs assumes that every task can be reached from the initial task. The component graph of class Model (constructSCCGraph) and its reachability lists are checked by the bounded run only.'),
 'P09': ('proof', T, PROOF + ' The contract gives the equations of the values and that they are lower bounds of every refinement (lemma by induction); that they are attained (largest such values) and that the loop ends is checked by the bounded run only. std::list is modelled as a queue. Assumes methods with at least one subtask, consistent lists of the model (P07), costs that are not negative.'),
 'P10': ('proof', T, PROOF + ' state2Int is proved to place every fact of the state in its own bit of the packed words; that the visited list uses the whole packed vector as key is checked by the bounded run.'),
 'P16': ('proof', T, PROOF + ' std::priority_queue is modelled as a bag whose top is an element that no contained element precedes in the order of the comparator under contract; weighted sums are mathematical integers.'),
 'P20': ('proof', T, PROOF + ' Names (strings) and the search of a marker by name (rcStateFeature2HtnIndex) are checked by the bounded run only. Assumes consistent lists of the problem model (P04, P07) and sizes below 2^29.'),
 'P25': ('proof', T, PROOF + ' Least fixed point stated as: contains the state, closed under the allowed actions and methods, and contained in an arbitrary set that is. Assumes that the lists of the model are consistent (P05, P07), that preconditions of an action are distinct, and that the work arrays of the graph do not overlap.'),
}
NA = {i: 'not built yet' for i in ids_all} if False else __import__('collections').defaultdict(lambda: 'no contract built yet in this version')
