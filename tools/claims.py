"""Per-property claims; gen_meta.py turns them into MANIFEST.json."""
_T = 'TLA+ specification checked with TLC; '
CLAIMS = {
    'C25': dict(
        technique=_T + 'TLC-generated operation histories replayed in the code, recorded observations validated by a TLA+ trace specification',
        note='Bounded: all histories of 4 (quick) or 5 (thorough) operations over 2 keys and 2 outputs, '
             'and seeded random histories to 25 operations over six key/output shapes.'),
    'C01': dict(
        technique=_T + 'closed-loop fair-cycle verification of recorded controllers; games generated by TLC and seeded random games',
        note='Bounded: TLC-generated family of two-Boolean games (all pools, options and quantifications) and seeded random '
             'specifications with up to 18 states and four variables; every infinite play of each closed loop is decided.'),
    'C02': dict(
        technique=_T + 'independent explicit GR(1) game solution in TLA+, itself checked against enumeration of all strategies, compared with recorded verdicts',
        note='Bounded as C01. Where the environment can be unable to move, a refusal to construct a machine is not judged, '
             'and gr1py (third-party) is not judged.'),
    'C10': dict(
        technique=_T + 'bounded model explored exhaustively per graph class; each reachable state and operation replayed in the code, plus random histories validated by a TLA+ trace specification',
        note='Sixteen graph classes; all states of the two-state model within 5 (quick, sampled) or 7 (thorough) operations with every next operation, '
             'and random histories of up to 35 operations over five states of mixed types with queries. Adding an unlabeled transition next to labeled ones is unspecified '
             'and not judged; subscripting networkx edges directly is not exercised.'),
    'C11': dict(
        technique=_T + 'fixpoint checked against path enumeration on all three-state graphs; every such graph and random graphs replayed in the code',
        note='All graphs on three states with all initial sets (a quarter in quick), and random labeled graphs of up to twelve states in sixteen classes. '
             'The documented error raised when no state survives is required, the emptied graph is not judged.'),
    'C09': dict(
        technique=_T + 'bounded model explored exhaustively; each reachable state and operation replayed in the code, plus random histories validated by a TLA+ trace specification',
        note='All states of a three-element model within 4 (quick) or 6 (thorough) operations with every next operation, and random histories of up to 30 operations over '
             '15 elements with several spellings (hashable, unhashable, tuples with unhashable items, falsy values) and nine kinds of iterables. '
             'Equality of a set with a frozenset of the same items as elements is not exercised; comparison to non-MathSet objects raises by design.'),
    'C18': dict(
        technique=_T + 'all small worlds generated by TLC and random histories replayed in the code; specifications, names, views and generated worlds validated by TLA+ trace specifications',
        note='All 2x3 worlds with at most one initial and one goal cell (sampled in quick), and seeded random worlds to 6x6 with operation histories; specifications are compared '
             'cell by cell as relations over all valuations. Drawing and animation are not exercised.'),
    'C04': dict(
        technique=_T + 'lexer, precedence parser and two printers specified in TLA+ and checked against each other on all small trees and token sequences; texts generated from them parsed by the code and validated by a TLA+ trace specification',
        note='All trees of up to 2 (quick) or 3 (thorough) operators with one operator of each precedence level, all token sequences up to length 3 or 4 (sampled), random formulas of up to '
             '12 operators with random spellings, spacing, comments and parentheses, and corrupted texts. Precedence of truncation <<>> and the operator R are undocumented or unsupported and not judged.'),
    'C05': dict(
        technique=_T + 'two-state and lasso semantics in TLA+; formulas generated by TLC and at random translated by the code, read back per language and compared on all state pairs or lassos',
        note='All formulas with two operators over given atoms (sampled in quick) and random formulas and specifications; agreement is decided on all pairs of states, '
             'or all ultimately periodic words of up to three states for temporal operators. Errors raised for operators outside a language are accepted. '
             'Readers of gr1c, slugs, JTLV, Promela, SMV, Wring follow their documentation; Python text is evaluated.'),
    'C07': dict(
        technique=_T + 'substitution semantics in TLA+ checked against syntactic substitution; random histories of passes and edits replayed in the code, every clause compared on all state pairs by a TLA+ trace specification',
        note='Random specifications of up to four mixed-domain variables (at most 12 states) and histories of up to seven passes and edits, and random formulas for the functions on single formulas; '
             'each result is compared on all pairs of states. Substituting values for only some variables is refused by the code and not judged.'),
    'C08': dict(
        technique=_T + 'objects as value records with declare, edit, copy, union, convert and dump as actions; every short history from TLC and random histories replayed in the code, all objects compared after each step by a TLA+ trace specification',
        note='All histories of 2 (quick, sampled) or 3 operations over two clauses and two variables, and random histories of up to 30 operations over up to five objects sharing clauses. '
             'Loaded finite domains are compared as sets, as documented. Which options repr shows is not judged.'),
    'C06': dict(
        technique=_T + 'existence of a run with auxiliary variables decided by a fixpoint in TLA+ for every lasso word; reductions and splitting model checked, and the formulas TLC enumerates are given to the code and its results judged by a TLA+ trace specification',
        note='All conjunctions of up to three conjuncts from 28 (sampled in quick), all pairs of eight propositional arguments for each conversion, and random formulas over mixed domains; '
             'behaviours are compared on all ultimately periodic words of up to three states. Nested next in safety is not judged.'),
    'C12': dict(
        technique=_T + 'product and acceptance of runs defined in TLA+, checked against each other on all two-state pairs; these pairs and random ones are given to the code and each product and on-the-fly history is judged by a TLA+ trace specification',
        note='All pairs of two-state systems and automata over one proposition (sampled), and random pairs of up to five and four states with labeled, parallel and self transitions, several kinds of state names, and the letter {True}. Letters are sets of propositions of the automaton.'),
    'C13': dict(
        technique=_T + 'largest bisimulation and coarsest dual-simulation abstraction defined in TLA+; the partition refinement itself is checked by TLC on all systems of up to three states; all small and random larger systems are given to simu_abstract and its results judged by a TLA+ trace specification',
        note='All systems of up to two states, sampled ones of three, and random systems of up to 9 (thorough 14) states, with overlapping copies of substructures, several sets of propositions with colliding hashes, labeled transitions, and state names of several kinds. Dual abstractions of up to six states.'),
    'C14': dict(
        technique=_T + 'composition and policies defined in TLA+; stochasticity and the commutation of policies with composition model checked on all two-state models; these and random tuples of models are composed by the code and the results judged by a TLA+ trace specification',
        note='All pairs of two-state Markov decision processes and chains (sampled in quick), and random tuples of one to four models of the documented mixtures, given and nested compositions, operations on costs and probabilities, policies given as tables and functions. Costs are integers or integer vectors; probabilities are dyadic.'),
    'C15': dict(
        technique=_T + 'reactions, runs and conversions of machines defined in TLA+, with behaviour equivalence of conversions model checked on all two-state machines; histories of the code on these and random machines are judged by a TLA+ trace specification',
        note='All two-state machines with one input and output (sampled), random machines of up to four states and two inputs and outputs with values of several types, deterministic or not. Converted machines are compared for input/output behaviour of any length by bisimulation; projections, masks and determinizations exactly.'),
    'C16': dict(
        technique=_T + 'machines defined in TLA+; all two-state machines and random ones are dumped by the code, the program is run on input sequences, and its moves are judged by a TLA+ trace specification',
        note='All two-state machines (sampled) and random machines of up to six states, values and port names of several kinds including quotes, input sequences of up to ten moves, which include rejected ones. Also for graphs of networkx with the same attributes, and programs written to files.'),
    'C17': dict(
        technique=_T + 'least-cost paths and plans of least rule violation are defined in TLA+ (with the search as a transition system and the product construction proved equal to the direct definition by model checking); results of the code are judged by a TLA+ trace specification',
        note='Random weighted graphs of up to seven nodes with parallel edges, zero and vector costs, and nodes of mixed types; random systems of up to five states with up to three rules of up to three states each; all comparisons of pairs from a grid of vectors and random ones. The least cost is computed by fixpoint, and the violations of the returned path by the definition (letters that vanish).'),
    'C03': dict(
        technique=_T + 'the moves that a transition system allows are defined in TLA+ (model checked: the runs of the game on a system are exactly its labeled paths); formulas encoded by the code are evaluated in TLA+ on every pair of valuations, and realizability and controllers for games with transition systems are judged by the TLA+ GR(1) semantics',
        note='All systems of two states over one proposition and one type of actions (sampled in quick), random systems of up to five states with environment and system actions, integer, string and mixed states and Boolean encodings; games of up to 50 valuations with up to two models, the four initial quantifications, solvers omega and gr1py.'),
    'C24': dict(
        technique=_T + 'constructors of models are a TLA+ state machine over models that share parts (time data propagate to parts; invariants model checked), whose histories are replayed in the code; acceptance and stored data of linear, piecewise-affine and switched models are predicates in TLA+ that judge recorded constructions',
        note='Histories of up to nine constructors; systems of up to three states with at most one inconsistent datum; domains are unions of integer boxes in one or two dimensions (subsystem domains of several boxes only where data are to be rejected, because the difference with a region errs in package polytope); up to three labels of each kind.'),
    'C22': dict(
        technique=_T + 'formats are decoding functions in TLA+ (bitfields, valuations, guards, annotation, protocol of sessions, model checked), which judge what the code loaded from texts printed by stand-ins of the tools',
        note='Tools are stand-ins that print generated texts: strategies of up to six nodes, integers of up to four bits, never claims and games of up to four states, sessions of up to eight commands.'),
    'C23': dict(
        technique=_T + 'each format is a reading of a graph in TLA+ (what a document of that format says about states, labels, transitions), model checked for being reversible; documents that the code wrote are parsed and judged against the graph',
        note='Graphs of up to four states with up to two ports or labels of each kind; documents are parsed with small readers of the formats; stormpy is a stand-in.'),
    'C19': dict(
        technique=_T + 'partitions are a TLA+ state machine (refinement by propositions, grids, subsystems) with invariants model checked; its behaviours are replayed, and recorded partitions, maps, adjacency, transition systems are judged by TLA+ operators over integer sample points and half-spaces',
        note='Boxes with rational corners in one to three dimensions, where sample points decide; polygons in the plane by sixty points each, without adjacency. Propositions are convex; domains are convex.'),
    'C20': dict(
        technique=_T + 'predecessor, reach-stay, and abstraction are TLA+ operators over lattice cells (Reach), whose laws TLC checks (ReachMC); sets of the specification are computed by the code, and sets, partitions, transitions and maps that the code computes are judged by TLA+ (ReachTrace)',
        note='Systems in one or two dimensions with integer coefficients and boxes with integer corners (unions of lattice cells), horizons up to three; general matrices for one step. Completeness is judged for convex sets or without disturbances; trimming by max_num_poly is not judged.'),
    'C21': dict(
        technique=_T + 'plans of inputs are TLA+ operators over tubes of states, with an adversary that picks disturbances and a cost (Drive), model checked (DriveMC) and related to the sets of Reach; inputs that the code computes, once or again after each step, are judged by TLA+ (DriveTrace), against all plans on a lattice for existence and cost',
        note='Systems and abstractions as for C20, horizons up to three. Existence is judged where the method is complete; optimality against plans whose inputs are multiples of 1/2; norm 2 needs cvxopt, which is absent.'),
}
NOT_YET = {}
for _k in ('C04', 'C05', 'C06', 'C07', 'C08'):
    CLAIMS[_k]['note'] += ' Inputs affected by the known findings are explored only by the inputs listed for these findings.'
