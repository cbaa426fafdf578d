"""Source of /verif/properties.jsonl (run tools/gen_meta.py to regenerate)."""
P = []


def p(id, title, statement, over, text, why, files, mechanism, observe, state=()):
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text),
        why_tests_cant=why,
        anchors=dict(
            files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mechanism],
            observe_at=observe,
            hook_needed=None)))


p('C01', 'Synthesized controllers satisfy the GR(1) specification',
  'Every controller that synthesis returns for a GR(1) specification, executed against every environment, '
  'satisfies system initial, safety and recurrence requirements whenever the environment keeps its assumptions; '
  'it never gets stuck on an input the assumptions allow, and it uses only values in the declared domains. '
  'This holds for each solver (omega, gr1py), for Moore and Mealy controllers, for strict and non-strict '
  'implication, and for each quantification of initial conditions that the solver supports.',
  ['inputs', 'configurations', 'histories'],
  'all GR(1) specifications over finite-domain variables, all solver options, all infinite environment behaviours',
  'Tests synthesize a few dozen fixed specifications and assert mostly node counts or non-None; the property '
  'quantifies over all specifications and all infinite plays.',
  ['tulip/synth.py', 'tulip/interfaces/omega.py', 'tulip/interfaces/gr1py.py', 'tulip/spec/form.py',
   'tulip/spec/translation.py'],
  [('solver interface and strategy enumeration', 'tulip/interfaces/omega.py synthesize_enumerated_streett; tulip/interfaces/gr1py.py synthesize'),
   ('strategy to Mealy machine', 'tulip/synth.py strategy2mealy, _trim_strategy')],
  ['tulip.synth.synthesize return value (states, transitions, input/output labels)'],
  [('strategy', 'graph whose nodes carry variable valuations', 'return value of the solver interface')])

p('C02', 'Realizability verdicts are exact',
  'The realizability check answers yes exactly when the system player has a winning strategy in the GR(1) game '
  'defined by the specification, its Moore or Mealy option, its strict or non-strict implication, and its '
  'quantification of initial conditions. '
  'Synthesis returns a controller exactly when the realizability check answers yes, and solvers agree on specifications '
  'both support.',
  ['inputs', 'configurations'],
  'all GR(1) specifications over finite-domain variables and all option combinations',
  'Tests contain a handful of specifications known to be (un)realizable; exactness for all specifications needs '
  'an independent game solution.',
  ['tulip/synth.py', 'tulip/interfaces/omega.py', 'tulip/interfaces/gr1py.py', 'tulip/spec/translation.py'],
  [('realizability check', 'tulip/synth.py is_realizable'), ('fixpoint computation', 'tulip/interfaces/omega.py is_realizable')],
  ['tulip.synth.is_realizable and tulip.synth.synthesize return values'])

p('C03', 'Transition systems are encoded into specifications exactly',
  'Adding a transition system as a system or environment model to a specification allows exactly the behaviours of that '
  'transition system: initial states, transitions with their action labels, and the atomic propositions that hold '
  'in each state. '
  'Controllers synthesized with such models follow the system model, assume only the environment model, and satisfy the '
  'specification; realizability is decided for that combined game.',
  ['inputs', 'programs', 'configurations'],
  'all finite transition systems (state/action label shapes, mutual exclusion options) and all specifications over them',
  'Tests check a few hand-written systems by comparing strings or node counts; a dropped or extra edge, label '
  'or initial state in other shapes is invisible to them.',
  ['tulip/synth.py', 'tulip/transys/transys.py'],
  [('TS to GR(1)', 'tulip/synth.py sys_to_spec, env_to_spec, iter2var'), ('merging', 'tulip/synth.py _spec_plus_sys, synthesize_many')],
  ['specification returned by sys_to_spec / env_to_spec; synthesize and is_realizable with sys=, env='],
  [('loc', 'variable that stores the current TS state', 'specification returned by the encoder')])

p('C04', 'LTL parsing respects precedence; printing and reparsing is lossless',
  'A formula in TuLiP syntax parses to the syntax tree determined by the documented operator precedence and associativity, '
  'whatever the spacing, parenthesization, or choice of operator spellings; printing a tree and parsing it again yields an '
  'equivalent tree. '
  'Malformed text is rejected with an error rather than silently reinterpreted.',
  ['inputs', 'programs'],
  'all formulas generated by the grammar, all spelling and spacing variants',
  'Tests parse about thirty strings; precedence between all operator pairs and all spellings is combinatorial.',
  ['tulip/spec/lexyacc.py', 'tulip/spec/parser.py', 'tulip/spec/ast.py'],
  [('grammar and precedence table', 'tulip/spec/lexyacc.py'), ('full-name operator replacement', 'tulip/spec/parser.py'),
   ('printing', 'tulip/spec/ast.py flatten')],
  ['tulip.spec.parser.parse result and its flatten()'])

p('C05', 'Translation to other languages preserves meaning',
  'Translating a formula, or a whole GR(1) specification, to another supported language yields text that, under that '
  "language's semantics, has the same truth value in every pair of consecutive states as the original; declared variables keep their "
  'domains and owners, and each clause keeps its role (initial, safety, recurrence; assumption, guarantee).',
  ['inputs', 'programs'],
  'all formulas and specifications over boolean, integer-range and enumerated variables; all valuations of current and next state',
  'Tests compare a few translated strings; semantic agreement over all formulas and valuations is not tested.',
  ['tulip/spec/translation.py', 'tulip/spec/ast.py', 'tulip/spec/form.py'],
  [('per-language node tables', 'tulip/spec/translation.py make_*_nodes'), ('whole-spec printers', 'tulip/spec/translation.py translate, _to_gr1c, _to_slugs, _to_jtlv, _to_wring')],
  ['tulip.spec.translation.translate / translate_ast output'])

p('C06', 'LTL fragments convert to equivalent GR(1) specifications',
  'Splitting a GR(1) formula into its parts loses no conjunct and misplaces none, and rejects formulas outside the fragment. '
  'The conversions of stability, response, eventuality and until formulas yield GR(1) specifications whose behaviours, restricted '
  'to the original variables, are exactly the behaviours that satisfy the original formula.',
  ['inputs', 'histories'],
  'all formulas of each fragment and all infinite (ultimately periodic) words',
  'Tests check a few strings and one realizability verdict; equivalence over infinite words is never evaluated.',
  ['tulip/spec/gr1_fragment.py'],
  [('split', 'tulip/spec/gr1_fragment.py split_gr1, str_to_grspec'), ('fragment conversions', 'tulip/spec/gr1_fragment.py stability_to_gr1, response_to_gr1, eventually_to_gr1, until_to_gr1')],
  ['returned GRSpec parts'])

p('C07', 'Rewriting passes preserve the meaning of specifications',
  'Replacing enumerated values by integers, substituting values or constants for variables, substituting dependent variables, inferring '
  'quoted constants, and evaluating initial conditions each preserve the truth value of every clause under the corresponding '
  'valuations. '
  'Names, domains and clauses not concerned are untouched, and a name that is neither a declared variable nor a value is reported.',
  ['inputs', 'programs', 'histories'],
  'all specifications with mixed domains, all valuations, all orders of applying the passes',
  'Tests compare a few rewritten strings.',
  ['tulip/spec/form.py', 'tulip/spec/transformation.py', 'tulip/synth.py'],
  [('passes', 'tulip/spec/form.py str_to_int, sub_values, compile_init, replace_dependent_vars; tulip/spec/transformation.py sub_values, sub_constants, sub_bool_with_subtree, infer_constants, check_for_undefined_identifiers')],
  ['clauses of the GRSpec and flattened trees after each pass'])

p('C08', 'GR(1) specification objects stay coherent under edits',
  'After any sequence of declaring variables, editing clauses, merging, copying, dumping and reloading, a specification contains '
  'exactly the variables and clauses those operations imply, parsed views of clauses correspond to the current clause text, and '
  'copies are independent. '
  'Conflicting declarations are rejected and leave the specification unchanged.',
  ['histories', 'inputs'],
  'all sequences of specification-editing operations',
  'Tests run one or two operations each; cache staleness or aliasing appears only in longer histories.',
  ['tulip/spec/form.py'],
  [('parse cache', 'tulip/spec/form.py GRSpec.parse, ast, _collect_cache_garbage'), ('merge and copy', 'tulip/spec/form.py GRSpec.__or__, copy, declare')],
  ['GRSpec attributes, dumps(), ast()'],
  [('clause lists', 'conjuncts per role', 'GRSpec attributes')])

p('C09', 'Mathematical set containers behave as sets',
  'Sets that mix hashable and unhashable elements, subsets bound to a superset, power sets, Cartesian products and typed dictionaries '
  'give the same membership, size, equality, union, difference and product results as mathematical sets after any sequence of operations; '
  'a subset never contains an element outside its superset; a rejected operation raises an error and changes nothing.',
  ['histories', 'inputs'],
  'all operation sequences over mixes of hashable and unhashable elements',
  'Tests exercise single operations on one or two sets.',
  ['tulip/transys/mathset.py'],
  [('hashable/unhashable split', 'tulip/transys/mathset.py MathSet'), ('superset guard', 'SubSet.add, add_from'), ('typed dict', 'TypedDict')],
  ['membership, len, iteration, equality, exceptions'])

p('C10', 'Labeled graphs keep states, transitions and labels consistent',
  'After any sequence of additions, relabelings and removals of states, transitions and label values, a labeled graph, transition system, automaton or '
  'state machine contains exactly the states and labeled transitions that the operations imply: labels lie in their declared types, no labeled '
  'transition occurs twice, initial and accepting states are states, and a rejected operation changes nothing. '
  'Queries (finding states and transitions by label, successors, predecessors, reachability) return exactly the matching elements.',
  ['histories', 'inputs'],
  'all sequences of mutating operations and all queries in every resulting graph',
  'Tests perform short scripts and check a couple of counts.',
  ['tulip/transys/labeled_graphs.py', 'tulip/transys/transys.py', 'tulip/transys/automata.py', 'tulip/transys/machines.py', 'tulip/transys/mathset.py'],
  [('typed labels', 'tulip/transys/labeled_graphs.py add_node, add_edge'), ('removal', 'remove_node, remove_labeled_edge, States.remove'), ('find', 'States.find, Transitions.find')],
  ['nodes, edges with labels, states.initial, accepting, find/post/pre results, exceptions'],
  [('states.initial', 'initial states', 'LabeledDiGraph.states'), ('accepting', 'accepting states', 'FiniteStateAutomaton')])

p('C11', 'Dead-end removal keeps exactly the states with infinite runs',
  'Removing dead ends from a graph leaves exactly those states from which an infinite path exists in the original graph, with all transitions and '
  'labels among them, and initial states restricted accordingly; the result has no dead ends.',
  ['inputs'],
  'all finite labeled graphs',
  'One small example is tested.',
  ['tulip/transys/labeled_graphs.py'],
  [('iteration to fixpoint', 'tulip/transys/labeled_graphs.py remove_deadends, has_deadends')],
  ['graph after remove_deadends()'])

p('C12', 'Automaton products accept exactly the right runs',
  'The product of a transition system with a Buchi automaton contains exactly the reachable pairs and transitions in which the automaton reads the '
  "propositions that the transition system's successor state satisfies (the initial state's propositions are read first), with initial and accepting pairs accordingly; all product "
  'constructions, eager or on-the-fly, agree and project back onto the given operands.',
  ['inputs', 'configurations'],
  'all pairs of finite transition systems and automata over a shared alphabet',
  'Tests use two or three small pairs.',
  ['tulip/transys/products.py'],
  [('synchronous product', 'tulip/transys/products.py ts_ba_sync_prod, ba_ts_sync_prod, find_prod_succ, find_ba_succ'), ('on-the-fly product', 'OnTheFlyProductAutomaton')],
  ['product states, transitions, initial and accepting states'])

p('C13', 'Simulation abstractions are sound and coarsest',
  'The bisimulation quotient of a transition system relates exactly the bisimilar states: each class of the returned partition is one equivalence class of '
  'the coarsest proposition-preserving bisimulation, and the quotient has an edge exactly when some (equivalently every) member has. '
  'The dual-simulation abstraction covers all states with the sets that backward refinement yields, and its transitions exist exactly when every member of the source cell has a '
  'successor in the target cell.',
  ['inputs'],
  'all finite labeled transition systems, both abstraction types',
  'One example per type is tested.',
  ['tulip/transys/transys.py'],
  [('partition refinement', 'tulip/transys/transys.py simu_abstract, _pre, _output_fts')],
  ['returned quotient FTS and partition'])

p('C14', 'Synchronous composition and policies follow the component models',
  'The parallel composition of Kripke structures, weighted Kripke structures, Markov chains and Markov decision processes has as states the tuples of component states, and exactly the '
  'transitions in which every component makes a transition, with labels the unions of the component labels, '
  'initial states the tuples of initial states, and costs, probabilities and actions combined from the components by the given (or default) operations; compositions of Markov models stay stochastic. '
  'Applying a policy to a decision process keeps exactly the transitions that the policy selects, with their probabilities. The given models and arguments are not changed or shared.',
  ['inputs', 'configurations'],
  'all tuples of component models and policies',
  'Tests compose two fixed models.',
  ['tulip/transys/compositions.py', 'tulip/transys/transys.py', 'tulip/transys/mathfunc.py'],
  [('composition', 'tulip/transys/compositions.py synchronous_parallel'), ('policy', 'apply_policy')],
  ['states, transitions and labels of the result'])

p('C15', 'State machines execute their transition relation',
  'Stepping or running a Mealy machine on any input sequence produces only successors and outputs that its transitions define, is total where exactly one transition is enabled, and '
  'rejects inputs for which none is; random runs follow existing transitions only. '
  'Converting between Moore and Mealy machines, projecting ports, and masking outputs preserve the input/output behaviour for every input sequence.',
  ['inputs', 'histories'],
  'all machines and all input sequences',
  'Tests use two or three hand-written machines and a few steps.',
  ['tulip/transys/machines.py', 'tulip/synth.py'],
  [('reaction', 'tulip/transys/machines.py MealyMachine.reaction, run, guided_run, random_run'), ('conversion', 'moore2mealy, mealy2moore, strip_ports, synth.determinize_machine_init, mask_outputs')],
  ['returned states and outputs, converted machines'])

p('C16', 'Generated Python controllers behave as their machine',
  'Executable code dumped from a controller, run on any input sequence that the machine accepts, returns at every step the outputs of that machine and '
  'moves through corresponding states; inputs the machine rejects raise an error.',
  ['inputs', 'histories', 'programs'],
  'all deterministic machines and all input sequences',
  'Tests dump one machine and run one or two steps.',
  ['tulip/dumpsmach.py'],
  [('code generation', 'tulip/dumpsmach.py python_case, write_python_case')],
  ['outputs of the generated class, per step'])

p('C17', 'Minimum-violation planning returns optimal plans',
  'Shortest-path search returns the minimum accumulated cost over all paths and a path that attains it. Planning under prioritized safety rules returns a path of the transition system '
  'to a goal whose vector of rule violations, compared lexicographically by priority level and then by transition cost, is minimal; vector costs are totally ordered lexicographically.',
  ['inputs', 'histories'],
  'all weighted graphs, all transition systems with costs, all prioritized rule sets and insertion orders',
  'Two small scenarios are tested.',
  ['tulip/mvp.py', 'tulip/transys/graph_algorithms.py', 'tulip/transys/cost.py', 'tulip/spec/prioritized_safety.py'],
  [('weighted product', 'tulip/mvp.py solve, _add_transition, _get_rule_violation_cost'), ('search', 'tulip/transys/graph_algorithms.py'), ('order', 'tulip/transys/cost.py VectorCost')],
  ['cost, path and product returned by mvp.solve; dijkstra results; comparisons'])

p('C18', 'Grid worlds specify exactly their cells and moves',
  'The specification of a grid world allows exactly the moves between 4-adjacent empty cells (or staying), from the initial cells, with goals as recurrence, in both cell encodings; '
  'reachability queries, subworlds, scaling, troll constraints and text dump/load agree with the same cell map.',
  ['inputs', 'histories'],
  'all grids, encodings, offsets and troll placements',
  'Tests use a few fixed grids.',
  ['tulip/gridworld.py'],
  [('specification', 'tulip/gridworld.py GridWorld.spec, add_trolls'), ('text format', 'loads, dumps, dump_subworld, scale'), ('reachability', 'is_reachable')],
  ['clauses of GridWorld.spec(), is_reachable, dumps/loads, ==, generators'])

p('C19', 'Partitions preserve propositions and cover the domain',
  'A proposition-preserving partition, and each refinement of it (convexification, gridding, restriction to subsystem domains), consists of regions that are pairwise disjoint up to boundaries, '
  'cover the domain, and carry exactly the propositions that hold at their points; reported adjacency is exact, and the maps to parent regions and subsystems are correct. '
  'The derived transition system has one state per region with those propositions and one transition per adjacency.',
  ['inputs'],
  'all polytopic domains and proposition sets; decided for boxes with integer corners in one to three dimensions',
  'Tests use one or two configurations and check counts.',
  ['tulip/abstract/prop2partition.py'],
  [('partitioning', 'tulip/abstract/prop2partition.py prop2part, part2convex, pwa_partition, add_grid, ppp2ts')],
  ['regions, props, adj, maps, FTS'])

p('C20', 'Reachability and abstraction transitions are sound',
  'The set computed as feasible between two regions contains exactly the start points from which the dynamics can be steered, despite any disturbance, to the target within the given horizon while staying in the allowed set. '
  'Every transition of a discretized abstraction is realizable from every point of its source region, every region keeps the propositions of its ancestors, and the regions still partition the domain.',
  ['inputs', 'configurations'],
  'all affine systems with polytopic inputs and disturbances; decided for integer-valued box-decoupled systems',
  'Tests discretize three examples and compare counts or hand-picked points.',
  ['tulip/abstract/feasible.py', 'tulip/abstract/discretization.py', 'tulip/hybrid.py'],
  [('reachability', 'tulip/abstract/feasible.py solve_feasible, createLM, get_max_extreme'), ('refinement', 'tulip/abstract/discretization.py')],
  ['points contained in returned polytopes; abstraction ts, ppp and maps'])

p('C21', 'Continuous control inputs realize abstract transitions',
  'For a start point in a region and a transition of the abstraction, the computed input sequence satisfies the input constraints, keeps the trajectory in the allowed set, and drives it '
  'into the target region; it is optimal for the given cost. The discrete state reported for a point is a region that contains it.',
  ['inputs', 'configurations'],
  'all abstractions and start points; decided for integer-valued systems',
  'Tests compute inputs for one or two points.',
  ['tulip/abstract/find_controller.py'],
  [('optimization', 'tulip/abstract/find_controller.py get_input, get_input_helper, is_seq_inside, find_discrete_state')],
  ['returned input sequences and trajectories'])

p('C22', 'External strategy and automaton formats load faithfully',
  'Loading the output of an external tool (gr1c JSON or XML, slugs JSON with bit-encoded integers, ltl2ba never claims, Lily automata) reconstructs exactly the nodes, edges, valuations, '
  'initial nodes, accepting nodes and guards that the text describes.',
  ['inputs', 'programs'],
  'all well-formed outputs of those tools',
  'The tools are absent in most test environments and the loaders are tested on one or two files.',
  ['tulip/interfaces/gr1c.py', 'tulip/interfaces/slugs.py', 'tulip/interfaces/ltl2ba.py', 'tulip/interfaces/lily.py'],
  [('loaders', 'load_aut_json, load_aut_xml; slugs bitfield decoding; ltl2ba Parser; _lily_strategy2moore')],
  ['returned graphs'])

p('C23', 'Exports describe exactly the given graph',
  'Exporting a transition system or machine (Promela, SCXML, D3 JSON, DOT, PRISM model) yields a document that contains exactly the states, labels and transitions of the graph, and its initial and accepting states where the format represents them; '
  'where an importer exists, importing the export reproduces the model.',
  ['inputs', 'programs'],
  'all finite transition systems and machines',
  'Exports are tested for not raising.',
  ['tulip/transys/export/graph2promela.py', 'tulip/transys/export/machine2scxml.py', 'tulip/transys/export/save_d3.py', 'tulip/transys/export/graph2dot.py', 'tulip/interfaces/stormpy.py'],
  [('writers', 'fts2promela, mealy2scxml, labeled_digraph2d3, graph2dot_str, to_prism_file')],
  ['document text parsed back'])

p('C24', 'Hybrid system models are validated and preserved',
  'Constructing linear, piecewise-affine and switched system models accepts exactly the dimensionally consistent data, stores it unchanged (with documented defaults for omitted parts), propagates sampling times '
  'consistently, and rejects subsystems that overlap, leave parts of the domain uncovered, or are inconsistent, and modes that are not labels; conversions between model classes preserve dynamics.',
  ['inputs', 'configurations'],
  'all shapes of matrices, domains, mode labels and time data',
  'A few constructor calls are tested.',
  ['tulip/hybrid.py'],
  [('validation', 'tulip/hybrid.py LtiSysDyn, PwaSysDyn, SwitchedSysDyn, _push_time_data, _check_time_data')],
  ['constructor success or exception, stored attributes'])

p('C25', 'State-function tables behave as finite maps',
  'A table from states and inputs to outputs returns for every query exactly the last pair of keys and outputs added that matches it, reports absence otherwise, never changes entries by queries, and its saved '
  'form lists exactly the stored pairs.',
  ['histories', 'inputs'],
  'all sequences of additions and queries',
  'One short script is tested.',
  ['tulip/transys/mathfunc.py'],
  [('table', 'tulip/transys/mathfunc.py FunctionOnLabeledState')],
  ['query results, len, iteration, saved JSON'])
