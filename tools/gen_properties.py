#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the list below (kept as code so that it is easy to review)."""
import json, os
P = []
def p(id, title, statement, over, text, tests, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=tests,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=hook)))
NOT = "The existing tests only exercise the bundled decision-diagram library; no test runs this code. Even a test suite would sample a few "
M = "src/Model.cpp"; MH = "src/Model.h"; ID = "src/intDataStructures/"; RC = "src/heuristics/rcHeuristics/"

p("P01", "Applying an action follows the STRIPS state semantics",
  "An action is reported applicable in a search node exactly when every one of its preconditions is true in the node's state. Applying it yields a new node whose state makes every add effect true, every delete effect that is not also an add effect false, and leaves every other fact unchanged, while the parent node's state is untouched. A node is reported as a goal exactly when its task network is empty and all goal facts are true in its state.",
  ["inputs", "histories"], "every planning model, every state over any number of facts, every action with any (also repeated or overlapping) precondition, add and delete lists",
  NOT + "states and actions; the statement quantifies over all states and all effect lists.",
  [M, MH], [("isApplicable", M), ("apply", M), ("isGoal", M)],
  [("state", "truth value of every fact in a search node", "src/ProgressionNetwork.h")],
  ["return value of the applicability and goal tests", "state vector of the returned node"])
p("P02", "Progression removes one unconstrained task and keeps the rest of the network",
  "Progressing an unconstrained primitive task through its action removes exactly that task from the network, keeps every other pending task with its ordering constraints, and makes exactly those tasks unconstrained that have no pending predecessor afterwards. Decomposing an unconstrained abstract task with a method replaces it by fresh copies of the method's subtasks, ordered among themselves as the method states and before everything the replaced task was before. The node's reported counts, costs and depth grow by exactly the contribution of that step.",
  ["inputs", "histories"], "every task network (any partial order), every method and every choice of task",
  NOT + "networks; the statement quantifies over all partially ordered networks and methods.",
  [M, "src/ProgressionNetwork.h", "src/ProgressionNetwork.cpp"], [("decompose", M), ("apply", M), ("initializeMethod", M)],
  observe=["the successor node: unconstrained abstract and primitive tasks, successor lists, costs"])
p("P03", "Multiset of pending tasks is tracked exactly along progressions",
  "When tracking of contained tasks is on, the multiset of tasks reported for a child node equals the parent's multiset minus the progressed task plus the subtasks of the applied method (nothing for an action). The reported task list contains every task at most once, only with a positive count, and in ascending order.",
  ["inputs", "histories"], "every parent multiset, every action and every method subtask multiset",
  NOT + "progression steps; merging two sorted count lists has cases only particular multisets reach.",
  [M], [("updateTaskCounterM", M), ("updateTaskCounterA", M)],
  observe=["contained tasks and counts of a node"])
p("P04", "Integer lists of the input language are read exactly",
  "Reading an integer list line terminated by -1 returns exactly the integers before the terminator, in order, together with their number; an entry below -1, which encodes a negated literal, is returned increased by one. Reading a conditional effect list returns exactly the unconditional part, the conditional effects and each one's condition list with its length, in order.",
  ["inputs"], "every line consisting of any number of integers followed by the terminator",
  NOT + "input files; the statement quantifies over all lengths and values.",
  [M], [("readIntList", M), ("readConditionalIntList", M)], observe=["returned arrays and sizes"])
p("P05", "Fact-to-action and task-to-method indexes invert the model exactly",
  "For every fact, the index of actions with that fact as precondition, as add effect and as delete effect lists exactly the actions that have it, and the list of precondition-free actions contains exactly the actions without preconditions. For every task, the index of methods lists exactly the methods that decompose it.",
  ["inputs"], "every model: any number of facts, actions, tasks and methods",
  NOT + "models; the statement quantifies over all models.",
  [M], [("index construction after parsing", M), ("calcAddToActionMapping", M), ("generateMethodRepresentation", M)],
  observe=["inverse index arrays"])
p("P06", "Method orderings: closure and reduction preserve the partial order",
  "Replacing a method's ordering constraints by their transitive closure yields exactly the pairs of subtasks connected by a directed path in the original constraints, and replacing them by their reduction keeps exactly the constraints that are not implied by a longer path. A method is reported as totally ordered exactly when its constraints order every two subtasks.",
  ["inputs"], "every method with any number of subtasks and any acyclic ordering constraints",
  NOT + "orderings; the statement quantifies over all partial orders.",
  [M], [("computeTransitiveChangeOfMethodOrderings", M), ("computeTransitiveClosureOfMethodOrderings", M), ("isMethodTotallyOrdered", M)],
  observe=["ordering arrays after the call"])
p("P07", "First, last and successor information of methods matches the ordering",
  "For every method the set of first subtasks is exactly the subtasks without predecessor and the set of last subtasks exactly those without successor. For every subtask the recorded number of direct successors equals the number of ordering constraints that start at it. The sorted distinct-subtask representation lists every subtask type once, ascending, with its exact multiplicity.",
  ["inputs"], "every method with any subtasks and ordering constraints",
  NOT + "methods; the statement quantifies over all methods.",
  [M], [("generateMethodRepresentation", M)], observe=["method representation arrays"])
p("P08", "Strongly connected components are computed exactly",
  "Two vertices are put into the same component exactly when each can reach the other, every vertex is in exactly one component, and the component-to-vertex lists are the exact inverse of that assignment. The component graph has an edge between two different components exactly when some edge of the graph connects a member of the first to a member of the second. Reachability queries between vertex sets answer exactly whether a directed path (of any length, also zero) leads from a vertex of the first to one of the second; the direct query answers whether one of length at most one does.",
  ["inputs"], "every directed graph (disabling graphs and task decomposition graphs)",
  NOT + "graphs; the statement quantifies over all graphs.",
  ["src/sat/disabling_graph.cpp", M], [("calcSCCs / tarjan", "src/sat/disabling_graph.cpp"), ("calcSCCGraph", "src/sat/disabling_graph.cpp"), ("can_reach_any_of", "src/sat/disabling_graph.cpp")],
  observe=["component assignment, inverse lists and component graph"])
p("P09", "Minimal implied cost and distance are exact fixpoints and lower bounds",
  "The minimal implied cost of a primitive task is its action cost, and that of an abstract task is the minimum over its methods of the sum over the method's subtasks; the minimal implied distance obeys the same equation with one added per step. No refinement of a task is cheaper or shorter than the reported value.",
  ["inputs"], "every model with non-negative costs, including recursive methods",
  NOT + "models; the statement quantifies over all method hierarchies.",
  [M], [("calcMinimalImpliedX", M)], observe=["the two estimate arrays"])
p("P10", "State packing for duplicate detection is injective",
  "The packed representation of a state determines the truth value of every fact: two states over the same number of facts have equal packed words exactly when they agree on every fact. The words of the representation and their number depend only on the facts, with unused high bits zero.",
  ["inputs"], "every state with any number of facts",
  NOT + "states; a collision needs particular bit positions and lengths.",
  ["src/VisitedList.cpp"], [("state2Int", "src/VisitedList.cpp")], observe=["packed state vector"])
p("P11", "Duplicate detection never confuses different keys and finds equal ones",
  "A key (a sequence of bits with a padding length) that was never inserted is never reported as present with some earlier payload, and inserting an equal key again yields the payload slot of the first insertion. This holds for both prefix-tree implementations and for any order of insertions.",
  ["inputs", "histories"], "every sequence of insertions of keys of any content; per tree, keys of equal bit length and prefix-related keys",
  NOT + "insertion sequences; node splits depend on particular shared prefixes.",
  [ID + "SequenceSet.cpp", ID + "CompressedSequenceSet.cpp", ID + "HashTable.h"],
  [("sequence_trie insert", ID + "SequenceSet.cpp"), ("compressed_sequence_trie insert", ID + "CompressedSequenceSet.cpp"), ("bit masks", ID + "SequenceSet.cpp")],
  observe=["payload pointer returned by insert"])
p("P12", "Integer sets behave as mathematical sets",
  "After any sequence of insert, erase, append and clear operations, membership tests, sizes and emptiness tests agree with the mathematical set, and iterating visits every element exactly once. The sorted variant iterates in ascending order, and union, intersection and difference of two sets contain exactly the expected elements.",
  ["inputs", "histories"], "every sequence of operations within the initialised range",
  NOT + "operation sequences; the statement quantifies over all histories.",
  [ID + "bIntSet.cpp", ID + "noDelIntSet.cpp", ID + "bucketSet.cpp"],
  [("insert/append/erase/clear/iteration", ID + "bIntSet.cpp"), ("insert/clear/iteration/set operations", ID + "noDelIntSet.cpp"), ("insert/erase/iteration", ID + "bucketSet.cpp")],
  [("container / boolContainer", "characteristic vector", ID + "bIntSet.h")], ["public operations of the set classes"])
p("P13", "Integer stacks are last-in first-out",
  "Popping returns the most recently pushed element that was not popped yet, and emptiness is reported exactly when pushes and pops balance. The growing stack never loses or alters an element when it grows.",
  ["inputs", "histories"], "every sequence of pushes and pops, beyond the initial capacity for the growing stack",
  NOT + "operation sequences.",
  [ID + "IntStack.cpp", ID + "FlexIntStack.cpp"], [("push/pop", ID + "IntStack.cpp"), ("push with growth", ID + "FlexIntStack.cpp")],
  observe=["pop, isEmpty"])
p("P14", "The priority heap is a faithful min-priority queue",
  "The key and value reported at the top belong to an inserted, not yet removed entry and the key is minimal among all entries. Removing the top removes exactly that entry and adding adds exactly one, for any number of entries including when the storage grows.",
  ["inputs", "histories"], "every sequence of add and pop with any keys (duplicates included)",
  NOT + "operation sequences.",
  [ID + "IntPairHeap.h"], [("add / siftUp", ID + "IntPairHeap.h"), ("pop / siftDown", ID + "IntPairHeap.h")],
  observe=["topKey, topVal, pop, isEmpty"])
p("P15", "Search fringes return every node exactly once, in queue or stack order",
  "The queue fringe returns nodes in insertion order and the stack fringe in reverse insertion order, each inserted node exactly once, and the reported size and emptiness are exact, no matter how insertions and removals interleave or how many storage blocks they span.",
  ["inputs", "histories"], "every interleaving of insertions and removals of any length",
  NOT + "histories; block boundaries lie a million entries apart.",
  ["src/search/UnsortedFringe.cpp", "src/search/QueueFringe.cpp", "src/search/StackFringe.cpp"],
  [("addFirst/addLast/removeFirst/removeLast", "src/search/UnsortedFringe.cpp")], observe=["top/pop/size/empty"])
p("P16", "Best-first fringe orders by weighted evaluation value",
  "A pushed node's priority is the first heuristic value times the weight plus the configured path measure (nothing, modification depth, action costs, or both). Popping returns a node of minimal priority, with ties broken by the remaining heuristics in order, and the ordering used is a strict weak order.",
  ["inputs", "histories", "configurations"], "every node, weight, path-measure option and number of heuristics",
  NOT + "nodes.",
  ["src/search/fringes/OneQueueWAStarFringe.cpp"], [("push", "src/search/fringes/OneQueueWAStarFringe.cpp"), ("comparator", "src/search/fringes/OneQueueWAStarFringe.cpp")],
  observe=["order of popped nodes, f value"])
p("P17", "Integer array utilities sort and search correctly",
  "Sorting a range of an integer array yields an ascending permutation of that range and leaves the rest unchanged. Binary search on an ascending array returns an index of the value when it is present and -1 exactly when it is not. Making a set from an array keeps each value exactly once in ascending order.",
  ["inputs"], "every array and every range",
  NOT + "arrays.",
  [ID + "IntUtil.cpp", "src/heuristics/landmarks/lmDataStructures/lookUpTab.cpp"], [("sort/partition", ID + "IntUtil.cpp"), ("indexOf/containsInt/isSorted/makeSet", ID + "IntUtil.cpp"), ("indexOf", "src/heuristics/landmarks/lmDataStructures/lookUpTab.cpp")],
  observe=["arrays and return values"])
p("P18", "Additive and FF heuristics decide relaxed reachability exactly",
  "The additive and FF heuristics report a dead end exactly when some goal fact cannot be reached from the given state by ignoring delete effects. Otherwise the additive value is the sum over the goal facts of the cheapest derivation values (each action costing its own cost plus the sum of its preconditions' values).",
  ["inputs"], "every model, state and goal set, including actions without preconditions and zero costs",
  NOT + "states.",
  [RC + "hsAddFF.cpp"], [("getHeuristicValue", RC + "hsAddFF.cpp")], observe=["returned heuristic value"])
p("P19", "The LM-cut heuristic is admissible and detects dead ends exactly",
  "The landmark-cut value never exceeds the cost of an optimal delete-relaxed plan for the given state and goal, is at least the max-heuristic value, and is a dead end exactly when the goal is unreachable under delete relaxation.",
  ["inputs"], "every model with non-negative costs, state and goal set",
  NOT + "states; inadmissibility shows only on particular cost structures.",
  [RC + "hsLmCut.cpp"], [("getHeuristicValue", RC + "hsLmCut.cpp"), ("getHMax", RC + "hsLmCut.cpp"), ("updateHMax", RC + "hsLmCut.cpp")], observe=["returned heuristic value"])
p("P20", "The relaxed composition model encodes the task hierarchy exactly",
  "The classical model built from an HTN model contains every original action with its preconditions and effects plus a bottom-up marker for its task (and needs a top-down marker that holds initially), and one extra action per method that needs the markers of exactly the method's distinct subtasks and adds the marker of the decomposed task. The maps between tasks and the marker facts are exact inverses of each other. Actions keep their costs, or cost the configured amount when it is not zero, and methods cost the amount configured for them.",
  ["inputs", "configurations"], "every HTN model",
  NOT + "models.",
  [RC + "RCModelFactory.cpp"], [("getRCmodelSTRIPS", RC + "RCModelFactory.cpp"), ("t2tdr/t2bur/tdr2t/bur2t", RC + "RCModelFactory.cpp")], observe=["the constructed model"])
p("P21", "Propositional building blocks mean what their names say",
  "Every constraint helper of the SAT encoder adds clauses whose models are exactly the intended assignments: implications, at-least-one, forbidden conjunctions, and at-most-one and at-most-k constraints over any list of distinct variables. Auxiliary variables are fresh, and every intended assignment of the original variables extends to the auxiliary ones.",
  ["inputs"], "every list of variables of any length (both the pairwise and the binary at-most-one encoding) and every k",
  NOT + "lists; the binary encoding is only used for 256 or more variables.",
  ["src/sat/sat_encoder.cpp"], [("implies*, atMostOne, atMostK, atLeastOne, notAll", "src/sat/sat_encoder.cpp")], observe=["clauses sent to the SAT solver"])
p("P22", "The state transition formula encodes exactly the progression of states",
  "The clauses generated for a sequence of time steps are satisfied exactly by the assignments in which the first state is the initial state, the last one satisfies the goal, every chosen action's preconditions hold before and its effects hold after its step, and every fact that changes is changed by a chosen action of that step.",
  ["inputs"], "every model, every sequence of time steps and every grouping of action variables into blocks",
  NOT + "formulas.",
  ["src/sat/state_formula.cpp"], [("generate_state_transition_formula", "src/sat/state_formula.cpp"), ("generate_mutex_formula", "src/sat/state_formula.cpp")], observe=["clauses sent to the SAT solver"])
p("P23", "Inferred binary invariants hold in every reachable state",
  "Every two-literal clause that the invariant inference keeps is true in the initial state and in every state reachable by applying actions. Resolution over given invariants only adds clauses implied by them, and two literals are reported as mutually exclusive only if no reachable state makes both true.",
  ["inputs", "histories"], "every model and every reachable state",
  NOT + "models.",
  ["src/Invariants.cpp"], [("compute_Rintanen_*", "src/Invariants.cpp"), ("extract_invariants_from_parsed_model", "src/Invariants.cpp")], observe=["binary invariants"])
p("P24", "Disabling graph and block compression keep parallel steps sequentialisable",
  "The disabling graph has an edge from one action to a different one whenever the first deletes a precondition of the second and both can be applied in a common state. Consecutive actions are merged into one block only if executing the block's actions in order is possible whenever all their preconditions hold before the block.",
  ["inputs"], "every model", NOT + "models.",
  ["src/sat/disabling_graph.cpp"], [("compute_disabling_graph", "src/sat/disabling_graph.cpp"), ("are_actions_applicable_in_the_same_state", "src/sat/disabling_graph.cpp"), ("compute_block_compression", "src/sat/disabling_graph.cpp")], observe=["edges and blocks"])
p("P25", "Relaxed planning graph reachability is exact",
  "Given a state and a set of allowed tasks, a fact or an action is reported reachable exactly when it is delete-relaxed reachable using allowed actions only, and an abstract task or method exactly when it is allowed and some method with only reachable subtasks exists for it.",
  ["inputs"], "every model, state and set of allowed tasks", NOT + "states.",
  ["src/heuristics/planningGraph.cpp"], [("calcReachability", "src/heuristics/planningGraph.cpp")], observe=["factReachable, taskReachable, methodReachable"])
p("P26", "Visited-node detection never prunes a node that was not visited",
  "A search node is reported as already visited only if an earlier inserted node had the same state and an isomorphic remaining task network. Inserting a node twice reports the second one as visited whenever exact matching is enabled.",
  ["inputs", "histories", "configurations"], "every sequence of inserted nodes, all hashing options", NOT + "networks.",
  ["src/VisitedList.cpp"], [("insertVisi", "src/VisitedList.cpp"), ("matching", "src/VisitedList.cpp")], observe=["result of insertion"])
p("P27", "Every reported plan is a valid and complete HTN solution",
  "Whenever the engine reports a solution, the printed action sequence is executable from the initial state, reaches the goal, and is a linearisation of a network obtained by decomposing the initial task with the printed methods. When the search space is exhausted without loss of completeness, the problem has no solution.",
  ["inputs", "configurations", "histories"], "every problem, heuristic, fringe and option", NOT + "problems.",
  ["src/search/PriorityQueueSearch.h", "src/SearchEngine.cpp", "src/ProgressionNetwork.cpp"], [("search", "src/search/PriorityQueueSearch.h"), ("extractSolutionFromSearchNode", "src/ProgressionNetwork.cpp")], observe=["printed plan"])
p("P28", "SAT decomposition clauses encode exactly the decompositions of bounded depth",
  "The formula over a path decomposition tree is satisfiable exactly when the initial task has a decomposition of at most the given depth whose primitive leaves form an executable plan reaching the goal.",
  ["inputs"], "every model and depth", NOT + "models.",
  ["src/sat/pdt.cpp", "src/sat/sog.cpp", "src/sat/partial_order.cpp", "src/sat/sat_planner.cpp"], [("expandPDT, addDecompositionClauses", "src/sat/pdt.cpp"), ("generate_matching_formula", "src/sat/partial_order.cpp")], observe=["SAT formula"])
p("P29", "Symbolic transition relations and images match action semantics",
  "The image of a set of states under an action's transition relation is exactly the set of successor states, and the preimage exactly the set of predecessors. Encoding a state as a decision diagram and decoding it again is the identity.",
  ["inputs"], "every set of states and action", NOT + "states.",
  ["src/symbolic_search/transition_relation.cpp", "src/symbolic_search/sym_variables.cpp"], [("image/preimage", "src/symbolic_search/transition_relation.cpp")], observe=["decision diagrams"])
p("P30", "Decision-diagram operations are canonical and correct",
  "Two decision diagrams over one manager are the same node exactly when they denote the same function, and every Boolean operation returns the diagram of the stated function, regardless of garbage collection and variable reordering.",
  ["inputs", "histories"], "every sequence of operations", "The library's own tests compare a handful of runs against stored output; canonicity quantifies over all functions and all interleavings with garbage collection and reordering.",
  ["src/symbolic_search/cudd-3.0.0/cudd/cuddTable.c", "src/symbolic_search/cudd-3.0.0/cudd/cuddBddIte.c"], [("unique table and ITE", "src/symbolic_search/cudd-3.0.0/cudd/cuddTable.c")], observe=["node identity"])
p("P31", "Bounded translation to classical planning preserves solvability",
  "The classical problem written for a progression bound has a plan exactly when the HTN problem has a solution whose progressions never exceed that bound, and translating such a plan back yields a valid HTN solution.",
  ["inputs", "configurations"], "every model and bound", NOT + "models.",
  ["src/translation/htnToSAS.cpp", "src/translation/translationController.cpp"], [("htnToCond, htnToStrips, tohtnToStrips", "src/translation/htnToSAS.cpp")], observe=["translated problem"])
p("P32", "Extracted landmarks hold in every solution",
  "Every fact, task or method landmark extracted for a node occurs in every solution below that node, and progressing a node marks a landmark as reached only when the step achieves it.",
  ["inputs", "histories"], "every model and node", NOT + "models.",
  ["src/heuristics/landmarks/hhLMCount.cpp", "src/heuristics/landmarks/lmExtraction/LMsInAndOrGraphs.cpp"], [("landmark extraction", "src/heuristics/landmarks/lmExtraction/LMsInAndOrGraphs.cpp")], observe=["landmark sets, heuristic value"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
