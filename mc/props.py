"""The property records: properties.jsonl and MANIFEST.json are generated from here (tools/gen.py)."""
TESTS = ('The suite learns a few dozen fixed or randomly generated models; ')
P = {}


def prop(id, title, statement, over, text, why, files, mech, technique, note, rule='', quick='', thorough='', assume=(), observe=()):
    P[id] = dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                 technique=technique, note=note, rule=rule, bounds=dict(quick=quick, thorough=thorough),
                 assumptions=list(assume), observe=list(observe), level='model_checking')


EXH = 'explicit-state / stateless exhaustive exploration of the real code'
TRUST = 'Trusts the reference tables and their product-automaton equivalence in mc/ref.py (about 100 lines), CPython, and that the bounded space is representative.'
L = 'aalpy/learning_algs/'

# ------------------------------------------------------------------ active learning of deterministic systems
LEARN_TEXT = ('every deterministic input-complete system in the bounded space x every teacher strategy for choosing among '
              'counterexamples x every algorithm configuration, alphabet type and output type listed in the bounds')
LEARN_WHY = (TESTS + 'the property quantifies over all systems, all counterexample choices and all option combinations, and the '
             'oracles used in the tests pick one counterexample at random.')
LEARN_Q = ('all DFA/Moore/Mealy with <=2 states over 2 inputs, <=4 states over 1 input, 1 state over 3 inputs under every '
           'configuration; all minimal 3-state/2-input and 2-state/3-input ones under a covering set of configurations; 11 structured '
           'families (counters, locks, shift registers, chains, traps; 4-8 states, 2-3 inputs) under every configuration; all teacher '
           'choices (shortest+1) for the small machines; 6 larger machines (6-24 states, to 12 inputs); outputs None, empty and composite; print levels 1-3')
LEARN_T = 'as quick, plus all minimal 4-state DFA/Moore over 2 inputs, 3-state machines with 3 outputs, and core configurations on all 3-state machines'

prop('C01', 'L* ends with the minimal model of the system under any truthful teacher',
     'When the equivalence oracle answers truthfully, L* terminates and returns the minimal automaton of the requested type (DFA, Moore or '
     'Mealy) that is equivalent to the system, whichever counterexamples the oracle picks and whichever counterexample processing, closing, '
     'closedness, prefix, cache, sample and round-limit options are used. Each round the hypothesis grows and there are at most as many rounds '
     'as the system has states; the states carry access sequences that lead to them, and a non-empty characterization set on the exact '
     'result separates all its states. With a round limit the model of the last allowed round is returned.',
     ['inputs', 'configurations', 'histories'], LEARN_TEXT, LEARN_WHY,
     [L + 'deterministic/LStar.py', L + 'deterministic/ObservationTable.py', L + 'deterministic/CounterExampleProcessing.py'],
     [('closing and consistency loop', L + 'deterministic/LStar.py'), ('observation table', L + 'deterministic/ObservationTable.py')],
     EXH + ' against an adversarial teacher; oracle: product-automaton equivalence with the reference table',
     'Complete for the stated machines, teachers and configurations; nothing is claimed beyond the size bounds. ' + TRUST,
     quick=LEARN_Q, thorough=LEARN_T,
     rule='every (machine, plan) pair; a run is one complete learning run; distinct = distinct (learned table, hypothesis size sequence)')
prop('C02', 'KV ends with the minimal model of the system under any truthful teacher',
     'When the equivalence oracle answers truthfully, KV terminates and returns the minimal automaton of the requested type (DFA, Moore or '
     'Mealy) equivalent to the system, whichever counterexamples the oracle picks and whichever counterexample processing, cache and '
     'round-limit options are used. Hypotheses grow with every round, there are at most as many rounds as states, and every state of the '
     'result carries an access sequence that leads to it.',
     ['inputs', 'configurations', 'histories'], LEARN_TEXT, LEARN_WHY,
     [L + 'deterministic/KV.py', L + 'deterministic/ClassificationTree.py', L + 'deterministic/CounterExampleProcessing.py'],
     [('classification tree sifting and splitting', L + 'deterministic/ClassificationTree.py')],
     EXH + ' against an adversarial teacher; oracle: product-automaton equivalence with the reference table',
     'Complete for the stated machines, teachers and configurations. ' + TRUST, quick=LEARN_Q, thorough=LEARN_T,
     rule='every (machine, plan) pair; a run is one complete learning run; distinct = distinct (learned table, hypothesis size sequence)')
prop('C03', 'L# ends with the minimal model of the system under any truthful teacher',
     'When the equivalence oracle answers truthfully, L# terminates and returns the minimal automaton of the requested type (DFA, Moore or '
     'Mealy) equivalent to the system, for every extension rule, separation rule (including adaptive distinguishing sequences), sample set and '
     'cache option, and whichever counterexamples the oracle picks. With a limit of n learning rounds exactly the n-th hypothesis is returned '
     'if learning has not finished before.',
     ['inputs', 'configurations', 'histories'], LEARN_TEXT, LEARN_WHY,
     [L + 'deterministic/LSharp.py', L + 'deterministic/ObservationTree.py', L + 'deterministic/Apartness.py', L + 'deterministic/ADS.py'],
     [('observation tree, apartness and frontier', L + 'deterministic/ObservationTree.py'), ('ADS computation', L + 'deterministic/ADS.py')],
     EXH + ' against an adversarial teacher; oracle: product-automaton equivalence with the reference table',
     'Complete for the stated machines, teachers and configurations. ' + TRUST, quick=LEARN_Q, thorough=LEARN_T,
     rule='every (machine, plan) pair; a run is one complete learning run; distinct = distinct (learned table, hypothesis size sequence)')
prop('C04', 'Adaptive L# is exact whatever its reference models say',
     'Adaptive L# with a truthful equivalence oracle returns the minimal model of the system for any list of reference models: correct, '
     'slightly wrong, unrelated, over smaller, larger or disjoint alphabets, or none, under every rebuilding, state-matching, extension, '
     'separation, sample and round-limit option. The reference models only influence the number of queries; the list the caller passed is not changed.',
     ['inputs', 'configurations', 'histories'], LEARN_TEXT + '; references: every pair (system, reference) of machines with <=2 states, and '
     'systematic mutations of each larger system', LEARN_WHY + ' Adaptive L# is not exercised by the stable tests at all.',
     [L + 'adaptive/AdaptiveLSharp.py', L + 'adaptive/AdaptiveObservationTree.py', L + 'adaptive/StateMatching.py'],
     [('rebuilding and state matching', L + 'adaptive/AdaptiveObservationTree.py')],
     EXH + ' over (system, references, configuration, teacher)',
     'Complete for the stated pairs. ' + TRUST,
     quick='all pairs of <=2-state machines over 2 inputs (Mealy: configurations in rotation); families and 6 larger machines (9-16 states) with 4 mutated references; ~100 2-state/3-input '
           'systems per type with references over other alphabets; all minimal 3-state systems with one mutated reference per configuration',
     thorough='all pairs under all configurations; all 2-state/3-input systems; all mutations of all 3-state systems')
prop('C06', 'Counterexample processing yields a suffix that refines the hypothesis',
     'For every counterexample of a learner\'s hypothesis, each counterexample processing strategy (Rivest-Schapire, linear and exponential, '
     'forward and backward) returns suffixes of the counterexample of which at least one separates an access-word extension from the access '
     'word of the hypothesis state it leads to; longest-prefix processing returns all suffixes after the longest known prefix. Suffix-closed '
     'sets are returned when requested, a single suffix otherwise.',
     ['inputs', 'configurations'], 'every intermediate hypothesis of L* and KV on every machine in the bounds x every counterexample up to the length bound x every strategy',
     TESTS + 'they only check end results for a handful of counterexamples found by random oracles.',
     [L + 'deterministic/CounterExampleProcessing.py'], [('search for the breaking point', L + 'deterministic/CounterExampleProcessing.py')],
     EXH + ': all (hypothesis, counterexample, strategy) triples; oracle: brute-force set of valid decompositions',
     'Complete within the bounds; counterexample lists longer than 400 (families) or 60 (3-state machines) are cut to their shortest and longest members and counted. ' + TRUST,
     quick='1-input machines to 5 states (counterexamples to length 9), 2-state/2-input (length 6), families (7), all minimal 3-state/2-input (5); 6-24-state machines with one counterexample per reachable product pair against hypotheses with merged states',
     thorough='as quick with counterexamples to length 9 (families) and 7 (3-state) under the full hypothesis set')
prop('C07', 'The query cache never changes answers and never repeats a known query',
     'A cached system answers every membership query and every interactive run exactly as the uncached system would, for every history of '
     'queries, steps and preset samples, every alphabet and output value (falsy and composite ones included) and both cache implementations. A '
     'query whose word is a prefix of an executed word is answered without touching the system, and the query, step and cached-query counters say so.',
     ['histories', 'inputs', 'configurations'], 'every operation history up to the depth bound over all words up to length 2-3, for every 2-state machine in the bounds',
     TESTS + 'no test exercises operation histories on the cache, only end-to-end learning.',
     ['aalpy/base/SUL.py', 'aalpy/base/CacheTree.py'], [('CacheSUL', 'aalpy/base/SUL.py'), ('CacheTree/CacheDict', 'aalpy/base/CacheTree.py')],
     'explicit-state breadth-first search over operation histories of the real cache; states merged by cached-word set; oracle: bare system',
     'Complete to the stated depth. Merging assumes the observable future of the cache depends only on which words are cached.',
     quick='depth 3 (about 12 machines per type), depth 2 for 3-letter alphabets; histories with 12-letter and longer words on the 6-24-state machines', thorough='depth 4 on all 2-state machines')
prop('C08', 'Contradictory answers are always detected, consistent ones never reported',
     'With caching and non-determinism checking on, whenever an execution contradicts an earlier observation (a common input prefix with a '
     'different output) the very query or step that exposes it aborts with an error, and no error is ever raised for observations that are '
     'consistent. The same holds at learner level: learning a system that starts to behave differently never ends silently with a model '
     'that contradicts what was observed.',
     ['histories', 'fault_sequences'], 'every history of queries and interactive runs up to the depth bound x every sequence of answers a two-valued system can give; '
     'for learners every single point of the run at which the system changes behaviour',
     'The tests run deterministic systems only; one flipped answer at an arbitrary point of an arbitrary history is outside their reach.',
     ['aalpy/base/SUL.py', 'aalpy/base/CacheTree.py', L + 'deterministic/ObservationTree.py'],
     [('cache consistency check', 'aalpy/base/CacheTree.py'), ('observation insertion', L + 'deterministic/ObservationTree.py')],
     'fault enumeration as exhaustive exploration: all answer sequences of an adversarial system, all single change points of a learning run',
     'Complete to the stated depth; at learner level for single permanent behaviour changes.',
     quick='histories of 3 operations; one third of the 2-state machines plus families below 6 states', thorough='histories of 4 operations; all 2-state machines')
prop('C09', 'Queries execute exactly the asked word and the statistics count what happened',
     'A membership query resets the system exactly once before and cleans up exactly once after executing exactly the asked letters in order, '
     'returns one output per letter (the current output for the empty word), and advances the query and step counters by one and by the word '
     'length; adaptive queries do the same for the inputs chosen on the way. After learning, the reported numbers of learning queries and steps equal '
     'the resets and steps really executed on the system outside equivalence queries, and with caching no query re-executes a known word.',
     ['inputs', 'histories', 'configurations'], 'every word up to the length bound on every <=2-state machine, every adaptive decision script of depth 3, every learner configuration on the machines in the bounds',
     TESTS + 'no test counts what is executed on the system.',
     ['aalpy/base/SUL.py', 'aalpy/SULs/AutomataSUL.py', L + 'deterministic/LStar.py', L + 'deterministic/KV.py', L + 'deterministic/LSharp.py', L + 'adaptive/AdaptiveLSharp.py'],
     [('SUL.query / adaptive_query', 'aalpy/base/SUL.py')], EXH + '; oracle: instrumented reference system',
     'Complete within the bounds. ' + TRUST, quick='words to length 4; 1/6 of 2-state machines for scripts; learners on all 2-state machines, families and 1/12 of 3-state machines; the 6-24-state machines with words of 2-4 letters and every learner',
     thorough='words to length 6, all 2-state machines, half of the 3-state machines')
prop('C10', 'System adapters answer like the thing they wrap',
     'Every wrapped automaton, regular expression, Tomita grammar and Python class answers exactly like the wrapped object for every input '
     'word including the empty one: a regular expression accepts exactly its language (top-level alternation, anchors and line breaks '
     'included), each Tomita grammar its defined language, a class receives exactly the given arguments (falsy ones included) on a fresh instance per query.',
     ['inputs', 'programs'], 'every expression tree of the bounded grammar x every word to length 4; all binary words to length 10; every call sequence to length 3 over 34 calls',
     TESTS + 'they learn two Tomita languages and a few regexes and compare sizes.',
     ['aalpy/SULs/RegexSUL.py', 'aalpy/SULs/TomitaSUL.py', 'aalpy/SULs/PyMethodSUL.py', 'aalpy/SULs/AutomataSUL.py'],
     [('step functions', 'aalpy/SULs/RegexSUL.py')], EXH + '; oracle: set semantics of the expression tree / independent definitions',
     'Complete for the bounded expressions and words. Trusts the 30-line language semantics in checks/C10.py.',
     quick='about 700 expressions, words to length 4, some of length 8-40, letters of several characters, several systems used at once; Tomita to length 10; call sequences to length 3', thorough='about 3000 expressions; Tomita to length 13; call sequences to length 4')
OR = 'aalpy/oracles/'
prop('C11', 'Equivalence oracles return only real counterexamples',
     'Whatever random choices are made and whatever hypotheses were tested before, every sequence returned by any equivalence oracle is a real '
     'counterexample: system and hypothesis disagree on its last step (and, for the oracles that compare every step, agree before), and an '
     'equivalent hypothesis is never refuted; a hypothesis is only accepted when no executed test showed a difference. For non-deterministic and stochastic hypotheses the returned trace was really observed and is the '
     'shortest one impossible in the hypothesis.',
     ['inputs', 'schedules', 'histories'], 'every (system, hypothesis) pair in the bounds x every oracle x every resolution of its random choices (deviation bounded) x three successive calls',
     TESTS + 'one random run of each oracle inside one learning run.',
     [OR + f for f in ('BreadthFirstExplorationEqOracle.py', 'CacheBasedEqOracle.py', 'PacOracle.py', 'PerfectKnowledgeEqOracle.py',
                       'ProvidedSequencesOracleWrapper.py', 'RandomWalkEqOracle.py', 'RandomWordEqOracle.py', 'StatePrefixEqOracle.py',
                       'TransitionFocusOracle.py', 'WMethodEqOracle.py', 'WpMethodEqOracle.py', 'kWayStateCoverageEqOracle.py', 'kWayTransitionCoverageEqOracle.py')],
     [('find_cex of every oracle', OR + 'WMethodEqOracle.py')],
     'stateless exploration of all random choices of the real oracles (deviation-bounded DFS)',
     'Exhaustive up to the stated number of non-default random choices; executions beyond the per-oracle cap are counted as capped. ' + TRUST,
     quick='<=3 non-default choices, cap 250 executions per (pair, oracle)', thorough='<=5 non-default choices, cap 3000')
prop('C14', 'Oracles count what they execute and leave their inputs unchanged',
     'After any number of equivalence queries the counters of an oracle equal the resets and steps it really executed on the system. Neither the '
     'hypothesis (states, their order, transitions, outputs, access sequences, initial state), nor the alphabet, nor the sequences passed by the '
     'caller are changed by an equivalence query.',
     ['inputs', 'schedules', 'histories'], 'every (system, hypothesis) pair in the bounds x every oracle x every resolution of its random choices (deviation bounded) x three successive calls',
     TESTS + 'counters and hypothesis integrity are never compared with what happened.',
     [OR + 'WMethodEqOracle.py', OR + 'kWayStateCoverageEqOracle.py', OR + 'ProvidedSequencesOracleWrapper.py', 'aalpy/base/Oracle.py'],
     [('reset_hyp_and_sul', 'aalpy/base/Oracle.py')],
     'stateless exploration of all random choices of the real oracles (deviation-bounded DFS)',
     'Exhaustive up to the stated number of non-default random choices.',
     quick='<=2 non-default choices, cap 200 executions', thorough='<=4, cap 3000')
prop('C12', 'The W- and Wp-method are complete for systems of up to m states',
     'When a W-method or Wp-method equivalence oracle with bound m finds no counterexample, the hypothesis is equivalent to the system, for every '
     'system with at most m states and every minimal hypothesis with at most m states; this also holds when the same oracle tested '
     'other hypotheses before. Hence every deterministic learner that uses one of them with a bound not below the number of states of the '
     'system ends with an exact minimal model.',
     ['inputs', 'configurations', 'histories'], 'every pair (hypothesis, system) in the bounds, every extra-state fault of every hypothesis, every two-step history of hypotheses, every learner',
     TESTS + 'an incomplete test suite only shows on particular fault/hypothesis pairs.',
     [OR + 'WMethodEqOracle.py', OR + 'WpMethodEqOracle.py', 'aalpy/base/Automaton.py'],
     [('test_suite', OR + 'WMethodEqOracle.py'), ('second_phase_it', OR + 'WpMethodEqOracle.py'), ('characterization set', 'aalpy/base/Automaton.py')],
     EXH + ': all (hypothesis, system, m) triples; oracle: product-automaton equivalence',
     'Complete for the stated pairs (m at most number of states plus 1). ' + TRUST,
     quick='all pairs of <=2-state machines over 2 inputs and <=3/4 states over 1 input, slices of the 3-state ones, all split/redirect/output faults of the families; faults of the 6-24-state machines and learning them with W/Wp',
     thorough='all 3-state DFA/Moore hypotheses against all <=3-state systems, 1/5 x 1/7 of the Mealy ones; families over 3 inputs')
prop('C13', 'An oracle executes all tests its parameters promise before accepting',
     'An equivalence oracle only accepts a hypothesis after executing the tests its parameters describe, whatever hypotheses it saw before: every '
     'word up to the depth (breadth-first, hence a learner using it ends with a model that agrees with the system on all of them), every k-way '
     'combination or permutation of states, every state with every k-letter word, the stated number of walks per state, walks, words or steps, the '
     'PAC number of tests in each round, the provided sequences first (at most the stated number of steps in k-way transition coverage), walks following self loops or leaving transitions of the current state with '
     'the stated preference, and exactly what the user typed. Recorded test cases are exactly the executed ones with the outputs of the model.',
     ['inputs', 'schedules', 'histories', 'configurations'], 'every machine in the bounds x every oracle x parameter grid x resolution of the random choices (deviation bounded); every user script to length 3',
     TESTS + 'the tests that an oracle silently skips are only missed when a fault hides exactly there.',
     [OR + f for f in ('BreadthFirstExplorationEqOracle.py', 'StatePrefixEqOracle.py', 'kWayStateCoverageEqOracle.py', 'kWayTransitionCoverageEqOracle.py',
                       'TransitionFocusOracle.py', 'RandomWalkEqOracle.py', 'RandomWordEqOracle.py', 'PacOracle.py', 'ProvidedSequencesOracleWrapper.py',
                       'CacheBasedEqOracle.py', 'UserInputEqOracle.py', 'WMethodEqOracle.py', 'WpMethodEqOracle.py')] + ['aalpy/utils/ModelChecking.py'],
     [('test selection', OR + 'kWayTransitionCoverageEqOracle.py'), ('generate_test_cases', 'aalpy/utils/ModelChecking.py')],
     'stateless exploration of all random choices of the real oracles, executed words compared with the promised coverage',
     'Exhaustive up to the stated number of non-default random choices and execution caps (counted). ' + TRUST,
     quick='<=2 non-default choices, at most 150 executions per oracle configuration; all <=2-state machines, slices of 3-state ones, families to 5 states; larger machines for the systematic oracles (cover, BFS)',
     thorough='at most 400 executions; half of the 3-state DFA/Moore')
MK = 'aalpy/utils/ModelChecking.py'
AU = 'aalpy/base/Automaton.py'
prop('C15', 'Equivalence checking of automata is exact and its counterexamples are real',
     'bisimilar() and == hold for two DFAs, Moore or Mealy machines exactly when no input word reveals a different output or a different set of '
     'enabled inputs, whatever the order, names or number of states, including partial machines and unreachable states; the returned counterexample '
     'is a word on which they really differ. Every word listed by compare_automata distinguishes the two automata, and none is listed for equivalent ones.',
     ['inputs'], 'every pair of automata in the bounds', TESTS + 'equivalence is a relation on all pairs; the tests compare a few learned models with their originals.',
     [MK, AU], [('bisimilar', MK), ('compare_automata', MK)],
     EXH + ': all pairs of tables; oracle: independent product search', 'Complete for the stated pairs; compare_automata on slices with default random choices plus one deviation. ' + TRUST,
     quick='all partial DFA/Moore tables (1/7 of Mealy) with <=2 states x 2 inputs, all with <=3 states x 1 input, slices of complete 3-state ones; all pairs of them', thorough='1/3 of Mealy, more 3-state tables')
prop('C16', 'Minimization preserves behaviour and leaves no two equivalent states',
     'minimize() turns every input-complete automaton into one with the same behaviour from the same initial state in which no two states are '
     'equivalent and no transition leaves the state list, for every order of the state list; incomplete automata are left unchanged. '
     'is_minimal() is true exactly when an input-complete automaton has no two equivalent states.',
     ['inputs'], 'every table in the bounds (disconnected and incomplete ones included) x every order of the state list', TESTS + 'minimization is called on random machines only.',
     [AU], [('minimize', AU)], EXH + ': all tables; oracle: pairwise product search', 'Complete for the stated tables. ' + TRUST,
     quick='all tables with <=2 states x 2 inputs (partial too), <=4 x 1, all DFA/Moore (Mealy 1/5) of 3 x 2, duplicated families', thorough='all (Mealy half) of 3 x 2, slices of 4 x 2')
prop('C17', 'Characterization sets and distinguishing sequences separate states',
     'For every pair of states a distinguishing sequence is found exactly when they behave differently, it is shortest, and it distinguishes them. A '
     'characterization set exists exactly for automata without equivalent states and separates all their states, for every combination of initial '
     'set, suffix closure and splitting option; it contains the initial set, is suffix closed on request, and the arguments and the current state '
     'of the automaton are not changed. Reported equivalent states are equivalent.',
     ['inputs', 'configurations'], 'every complete table in the bounds x every pair of states x every option combination', TESTS + 'no test checks the separation property itself.',
     [AU, 'aalpy/automata/Dfa.py', 'aalpy/automata/MooreMachine.py'], [('compute_characterization_set', AU), ('find_distinguishing_seq', AU)],
     EXH + ': all tables; oracle: pairwise product search', 'Complete for the stated tables. ' + TRUST,
     quick='<=2 states x 2 inputs, <=4 x 1, all DFA, half of Moore, 1/11 of Mealy 3 x 2, families over 2 and 3 inputs', thorough='all 3 x 2; slices of 4 x 2')
prop('C18', 'Shortest paths, access words and connectivity answers are exact',
     'For all states, get_shortest_path returns an executable path of minimal length or None exactly when the target is unreachable; computed '
     'prefixes are shortest access words; is_strongly_connected, is_input_complete, the input alphabet, state lookup and the lists of self-loop and '
     'leaving transitions describe exactly the transition graph.',
     ['inputs'], 'every partial table in the bounds x every pair of states', TESTS + 'graph queries are only used indirectly.',
     [AU], [('get_shortest_path', AU)], EXH + ': all graphs; oracle: independent BFS', 'Complete for the stated graphs. ' + TRUST,
     quick='all partial graphs with <=2 states x 3 inputs, 4 x 1, 3 x 2, families', thorough='all 4 x 2')
DP = L + 'deterministic_passive/'
prop('C26', 'RPNI returns an unmergeable model that agrees with the whole sample',
     'For every sample without contradictions both RPNI implementations return a model of the requested type that is defined on every sample word and '
     'answers it with the recorded label; all its states and transitions are exercised by the sample, no two of its states can be merged without '
     'contradicting the sample, and both implementations agree. A sample containing all words up to twice the size of a system yields exactly its minimal '
     'model. A contradictory sample yields None. Completion options keep the agreement.',
     ['inputs'], 'every labelled sample over the bounded prefix trees, every bounded system with its complete sample, several sample orders',
     TESTS + 'passive learning is run on a few random samples.',
     [DP + 'RPNI.py', DP + 'GsmRPNI.py', DP + 'ClassicRPNI.py', DP + 'rpni_helper_functions.py'], [('GsmRPNI', DP + 'GsmRPNI.py'), ('ClassicRPNI', DP + 'ClassicRPNI.py')],
     EXH + ': all samples; oracle: replay of the sample and merge closure with independent union-find', 'Complete for the stated samples. ' + TRUST,
     quick='all DFA samples over words <=2 x 2 letters, <=5 x 1, all Mealy trees of depth 2 x 2, slices of deeper ones; complete samples of all DFA/Moore with <=3 states x 2 (half)',
     thorough='all Moore samples of depth 2 with 3 outputs, denser slices, all 3-state targets, families up to 6 states')
GP = L + 'general_passive/'
prop('C27', 'State merging (GSM, EDSM, k-tails) keeps every observation and every count',
     'For every data set and every combination of score function, blue-node selection, node order and search order, generalized state merging and EDSM '
     'return a model that reproduces each labelled sequence or trace; the model has no states or transitions the data does not exercise, every '
     'transition count equals the number of data steps taking it, and (without score thresholds) no two states could be merged without contradicting '
     'the data; complete samples give the minimal model. Contradictory data never yields a deterministic model, nor traces with different initial outputs a Moore machine. Data given without a format '
     'is read as the one format it fits or refused. k-tails models contain every trace.',
     ['inputs', 'configurations'], 'every labelled sample / pair or triple of traces in the bounds x option combinations',
     TESTS + 'GSM has one or two example runs.', [GP + 'GeneralizedStateMerging.py', GP + 'GsmNode.py', GP + 'GsmAlgorithms.py', GP + 'ScoreFunctionsGSM.py'],
     [('partition from merge', GP + 'GeneralizedStateMerging.py')],
     EXH + ': all samples; oracle: replay, recount and merge closure', 'Complete for the stated samples; options in a covering rotation. ' + TRUST,
     quick='1/4 of DFA samples over words <=2 x 2, all 1-letter ones <=4, all Mealy trees depth 2; all pairs of traces of length <=2 over 2 inputs x 2 outputs, slices of longer / triples; complete samples of systems <=3 states',
     thorough='all of these, denser slices')
SPA = L + 'stochastic_passive/'
prop('C28', 'Alergia and stochastic state merging keep the observed frequencies',
     'For every data set, type (Markov chain, MDP, stochastic Mealy machine) and epsilon, the models of Alergia, Alergia-EDSM and stochastic GSM contain '
     'every trace, are deterministic given the observed output, have no unexercised states or transitions, and each probability equals the relative '
     'frequency with which the data takes the transition (so they sum to one). No two states kept by Alergia are compatible under the recursive Hoeffding '
     'test on the recorded counts, state prefixes lead to their states, and kept children are only merged into compatible states.',
     ['inputs', 'configurations'], 'every multiset of bounded traces x type x epsilon', TESTS + 'passive stochastic learning has no exact tests at all.',
     [SPA + 'Alergia.py', SPA + 'FPTA.py', SPA + 'CompatibilityChecker.py', GP + 'GsmAlgorithms.py'], [('Alergia merge and fold', SPA + 'Alergia.py'), ('Hoeffding test', SPA + 'CompatibilityChecker.py')],
     EXH + ': all data sets; oracle: replay and recount, independent Hoeffding recursion on the prefix tree', 'Complete for the stated data sets and multiplicities. ' + TRUST,
     quick='all pairs and triples of traces (<=3 steps x 1 input, <=2 x 2, 2 outputs), pairs with 3 outputs, slices of longer ones and quadruples; two of four multiplicity vectors and epsilons each', thorough='denser slices')
prop('C05', 'KV learns visibly pushdown languages exactly under any truthful teacher',
     'For every system that behaves like a visibly pushdown automaton (given by calls, returns and internal letters), KV with automaton type vpa '
     'terminates and returns a 1-SEVPA accepting exactly the same words when the equivalence oracle is truthful, whichever counterexamples it '
     'picks and whichever counterexample processing, cache and exclusive call-return options are used. It has no more states than the minimal '
     '1-SEVPA (a dead state may be dropped) and access words lead to their states.',
     ['inputs', 'configurations'], 'every 1-SEVPA table in the bounds x teacher strategies x processing options',
     TESTS + 'no test learns a pushdown system.', [L + 'deterministic/KV.py', L + 'deterministic/ClassificationTree.py', 'aalpy/automata/Sevpa.py'],
     [('classification tree for well-matched words', L + 'deterministic/ClassificationTree.py'), ('error state removal', 'aalpy/automata/Sevpa.py')],
     EXH + ' against an adversarial teacher; oracle: fixpoint product over well-matched words', 'Complete for the stated tables; options rotate over cases. ' + TRUST,
     quick='all 1-SEVPA tables with 1 state and <=2 internal/1+1 or 2+2 paired letters, 2 states with 1 internal/1 call/1 return (also partial) and with 2 calls or 2 returns; slices of 2 states x 2 calls x 2 returns, 3 and 4 states; 6 large 1-SEVPAs with a teacher that gives deep nested counterexamples',
     thorough='denser slices')
prop('C37', 'Pushdown automata execute words exactly and generate only accepted words',
     'A VPA or 1-SEVPA answers every word, step by step, as a sequence or through the adapter, exactly as its transitions and stack prescribe: accepting '
     'only with an empty stack, rejecting for ever once no transition fits, whatever was executed before or on other instances, and executing words does '
     'not change the automaton. Every word returned by its random and breadth-first generators is accepted and respects the limits, and the '
     'breadth-first one returns shortest accepted words. Balancedness holds exactly for words in which calls and returns match.',
     ['inputs', 'histories'], 'every bounded VPA / 1-SEVPA table x every word up to a depth, one after the other on the same instance, every random choice of the generators',
     TESTS + 'pushdown automata are only run inside two learning tests.', ['aalpy/automata/Vpa.py', 'aalpy/automata/Sevpa.py'],
     [('Vpa.step', 'aalpy/automata/Vpa.py'), ('Sevpa.step', 'aalpy/automata/Sevpa.py')],
     EXH + ': all tables and words; oracle: configuration-level reference', 'Complete for the stated tables and words up to length 3-5. ' + TRUST,
     quick='all partial VPA with 1 state (<=1 internal, <=2 calls/returns/stack symbols) and 2 states without internals, slices of larger ones up to 3 states; 1-SEVPA likewise; words up to 5 (3 letters), 4 (4), 3 (6); 6 large 1-SEVPAs and larger general VPAs with long nested words',
     thorough='denser slices')
prop('C29', 'PAPNI returns a VPA that agrees with every well matched labelled word',
     'For every sample of labelled words PAPNI returns (with each of its state merging algorithms) a visibly pushdown automaton that answers every well '
     'matched word of the sample with its label and rejects every word that is not well matched; words of the sample that are not well matched are '
     'ignored, all states and transitions are exercised by the sample and no two states could be merged. A sample with contradictory labels never yields a model.',
     ['inputs'], 'every labelling of all well matched words up to a length, several orders with repetitions and junk, complete samples of every bounded 1-SEVPA',
     TESTS + 'PAPNI is not tested.', [DP + 'RPNI.py', 'aalpy/automata/Vpa.py', 'aalpy/utils/HelperFunctions.py'],
     [('run_PAPNI', DP + 'RPNI.py'), ('vpa_from_dfa_representation', 'aalpy/automata/Vpa.py')],
     EXH + ': all samples; oracle: replay of the sample and merge closure on the stack-annotated words', 'Complete for the stated samples. ' + TRUST,
     quick='all labellings of well matched words <=2 over 1+1+1 and 2+2 letters, <=4 over 1+1, slices of <=3, <=6, 5 letters; complete samples of 1-SEVPA tables with <=3 states; complete samples of 6 large 1-SEVPAs', thorough='denser slices')
AUT = 'aalpy/automata/'
prop('C19', 'Copies and state set-ups are faithful and independent of the original',
     'For every automaton type that offers state set-ups (DFA, Moore, Mealy, non-deterministic Moore, MDP, stochastic Mealy, VPA, 1-SEVPA) and every '
     'automaton, complete or not, connected or not, whatever its initial state, state order, identifiers, letters and outputs: the state set-up is the '
     'documented table with the initial state first, loading it gives an isomorphic automaton of the same type, and so do copy(), copy.copy, '
     'copy.deepcopy and pickling. Copies start in the initial state, share nothing with the original, and neither copying nor later changes to the '
     'copy or the set-up affect the original.',
     ['inputs', 'histories'], 'every table in the bounds x initial states x state orders x identifier, letter and output kinds x ways of copying',
     TESTS + 'no test copies an automaton.', [AU] + [AUT + f + '.py' for f in ('Dfa', 'MooreMachine', 'MealyMachine', 'Mdp', 'StochasticMealyMachine', 'NonDeterministicMooreMachine', 'Vpa', 'Sevpa')],
     [('Automaton.copy and __reduce__', AU)], EXH + ': all tables; oracle: independent description of the automaton graph and the documented set-up format',
     'Complete for the stated tables; identifier and output kinds rotate over the tables. ' + TRUST,
     quick='deterministic: all partial tables with <=2 states x 2 inputs (1/3) and 3 x 1, slice of 3 x 2; stochastic and non-deterministic: all with n*k<=2, slices of 2 x 2, 3 x 1, 3 x 2; VPA/1-SEVPA: 1 state, slices up to 3 states',
     thorough='denser slices')
FH = 'aalpy/utils/FileHandler.py'
prop('C20', 'An automaton saved to a dot file is loaded unchanged',
     'For every automaton of every type (DFA, Moore, Mealy, ONFSM, non-deterministic Moore, Markov chain, MDP, stochastic Mealy, VPA, 1-SEVPA), complete or '
     'not, connected or not, whose state identifiers consist of letters, digits and underscores and whose inputs, outputs and stack symbols are '
     'non-negative integers or strings that do not look like numbers and are free of the separators of the format: saving it to a dot file and loading it '
     'gives an isomorphic automaton with the same initial state, identifiers, state order, branch order, labels and exact probabilities, whatever the '
     'file is called; saving does not change the automaton, the string form equals the file, and access words are computed on request; with round_floats=k exactly the probabilities are rounded to k digits.',
     ['inputs', 'configurations'], 'every table in the bounds x identifier, letter, output and file name kinds',
     TESTS + 'they load a few fixed files and never compare a saved model with the loaded one.', [FH],
     [('save_automaton_to_file', FH), ('load_automaton_from_file', FH)], EXH + ': all tables; oracle: independent description of the automaton graph',
     'Complete for the stated tables; identifier, letter, output and file name kinds rotate over the tables. ' + TRUST,
     quick='all partial deterministic tables with n*k<=2 and 1 x 3, slices of 2 x 2, 3 x 1, 3 x 2; stochastic and non-deterministic: n*k<=2, slices; VPA/1-SEVPA: 1 state, slices up to 3 states',
     thorough='denser slices')
HF = 'aalpy/utils/HelperFunctions.py'
prop('C21', 'Making an automaton input complete adds exactly the missing transitions',
     'For every DFA, Moore, Mealy, ONFSM, non-deterministic Moore machine, MDP and stochastic Mealy machine, is_input_complete holds exactly when every state '
     'has a transition for every input that occurs in the automaton. make_input_complete keeps all states, labels and existing transitions and adds for '
     'each missing (state, input) pair one transition with probability 1 and output "epsilon" (where transitions have these): a self loop, or, with '
     'sink_state, one to a single new state that is rejecting or labelled "sink_state" and loops on every input. Complete automata are left alone.',
     ['inputs'], 'every partial table in the bounds x both completion modes', TESTS + 'completion is not tested.', [HF, AU],
     [('make_input_complete', HF)], EXH + ': all tables; oracle: independent completion of the table', 'Complete for the stated tables. ' + TRUST,
     quick='deterministic: all partial tables with n*k<=4 (1 x 3, 2 x 2, 3 x 1), slices of 4 x 1, 2 x 3, 3 x 2; stochastic and non-deterministic: n*k<=2 and 1 x 3, slices of 2 x 2, 3 x 1, 3 x 2',
     thorough='denser slices')
prop('C22', 'Deterministic automata execute words exactly as their transitions say',
     'For every DFA, Moore and Mealy machine, from every state and for every word: step, execute_sequence, compute_output_seq, output_step and the adapter '
     'return the outputs along the path the word takes, and stepping and executing end in the state it leads to while the computing functions leave the '
     'current state alone; the current output of DFA and Moore states can be read without moving. Undefined inputs are errors that move nothing, and no '
     'execution, whatever came before, changes the automaton.',
     ['inputs', 'histories'], 'every partial table in the bounds x every origin state x every word up to a depth, one after the other on one instance',
     TESTS + 'execution is only exercised indirectly.', [AU, AUT + 'Dfa.py', AUT + 'MooreMachine.py', AUT + 'MealyMachine.py', 'aalpy/SULs/AutomataSUL.py'],
     [('execute_sequence / output_step', AU)], EXH + ': all tables, origins and words; oracle: the table', 'Complete for the stated tables and words up to length 3-6. ' + TRUST,
     quick='all partial tables with n*k<=3, slices of 2 x 2, 3 x 1, 4 x 1, 2 x 3, 3 x 2; words up to length 6 (1 input), 4 (2 inputs), 3 (3 inputs)', thorough='denser slices')
prop('C23', 'Non-deterministic and stochastic automata move with the exact probabilities',
     'For every MDP, stochastic Mealy machine, Markov chain, ONFSM and non-deterministic Moore machine, every state and every input, a step takes each branch '
     'with exactly its probability (uniformly without probabilities) and returns its output, words produce outputs with the product probabilities, and no '
     'random number leads anywhere else. step_to moves along a branch with the given output exactly when there is one and otherwise returns None and stays; '
     'the outputs and transitions reported for an input are those of the table, falsy outputs included; a final Markov chain state keeps answering its output. '
     'Undefined inputs are errors, and neither they nor any execution change the automaton, its input alphabet or its completeness.',
     ['inputs', 'schedules', 'histories'], 'every table in the bounds x every state, input and output x every random answer, with exact probabilities',
     TESTS + 'probabilities are never checked, and runs are sampled.', [AUT + f + '.py' for f in ('Mdp', 'StochasticMealyMachine', 'MarkovChain', 'Onfsm', 'NonDeterministicMooreMachine')],
     [('StochasticMealyMachine.step', AUT + 'StochasticMealyMachine.py'), ('Mdp.step', AUT + 'Mdp.py')],
     EXH + ' of all random answers with exact path probabilities; oracle: the table with rational arithmetic',
     'Complete for the stated tables; random() is enumerated on a grid of 16 cells, which is exact for the dyadic probabilities used, plus its extreme values. ' + TRUST,
     quick='all tables with n*k<=2 and <=2 branches (also with equal outputs), slices of 2 x 2, 3 x 1, 3 x 2 with <=3 branches; words of length 2', thorough='denser slices')
prop('C24', 'Conversions between model types preserve behaviour',
     'Converting any stochastic Mealy machine to an MDP keeps the probability of every output sequence for every input word (after one start output) and yields '
     'uniquely named states; converting a Moore machine with outputs True, False or None to a DFA gives the same graph with these labels, other outputs are '
     'refused; a Markov chain taken from an MDP is exactly the MDP under the chosen (or only) input, falsy inputs included, and several inputs without a choice '
     'are refused; the PRISM export describes exactly the initial state, branches, probabilities and labels of the MDP, in the string and in the file. '
     'No conversion changes its argument.',
     ['inputs'], 'every table in the bounds x identifier, letter and output kinds', TESTS + 'conversions are not tested.',
     [AUT + 'StochasticMealyMachine.py', HF, MK], [('smm_to_mdp_conversion', AUT + 'StochasticMealyMachine.py'), ('mc_from_mdp', HF), ('mdp_2_prism_format', MK)],
     EXH + ': all tables; oracle: exact output-word distributions by rational arithmetic, parse of the exported text', 'Complete for the stated tables; words up to 2n (1 input) or n+1. ' + TRUST,
     quick='stochastic Mealy: all with n*k<=2 (1/3 of 2 x 1), slices to 3 x 2, 3 outputs; MDP: n*k<=2, slices to 3 x 2; Moore with 3 outputs: <=2 states x 1, slices to 3 x 2', thorough='denser slices')
AG = 'aalpy/utils/AutomatonGenerators.py'
prop('C25', 'Randomly generated models have the promised size, alphabet and shape',
     'Whatever the random choices, a generated deterministic automaton has exactly the requested states, all reachable by their access words, is input complete '
     'over exactly the requested inputs, uses only the requested outputs (all of them if there is room), has the requested number of accepting states, and is minimal when asked for unless a '
     'warning says otherwise. MDPs and stochastic Mealy machines have proper distributions from the allowed ones with different outputs per branch and '
     'reachable states; ONFSMs are observable and input complete; Markov chains have proper distributions; 1-SEVPAs are deterministic and have a transition '
     'for every internal letter and every return letter and stack symbol. The alphabets passed in are not changed.',
     ['schedules', 'configurations'], 'every generator x parameter combination in the bounds x every answer of the first random choices',
     TESTS + 'they only use a generated model or two per type as learning targets.', [AG], [('generate_random_deterministic_automata', AG)],
     EXH + ' of all random choices up to a bound; oracle: direct predicates on the generated graph',
     'Choice points beyond the bound follow one fixed fair sequence. ' + TRUST,
     quick='1-4 states, 1-3 inputs, 1-6 outputs; the first 7 random choices enumerated, at most 1500 executions per parameter combination; larger sizes, alphabets and output sets with fewer executions each', thorough='first 12 choices, 40000 executions')
prop('C30', 'Active RPNI and active Alergia learn from exactly the runs they collect',
     'In every round active RPNI and active Alergia learn the model of the requested type that the passive algorithm learns from the initial data and '
     'all samples collected so far, hand it to the sampler and add the samples to the data; the model of the last round is returned. The random samplers '
     'perform the requested number of walks of the requested lengths over the inputs of the model and every sample they add is a run of the system: '
     'outputs belong to the inputs they were observed for, after the initial output where the model type has one.',
     ['schedules', 'inputs'], 'every bounded system x every random choice of the sampler and of the system x every scripted sampler of the bounded kind',
     TESTS + 'active passive learning is not tested.', [DP + 'active_RPNI.py', L + 'stochastic_passive/ActiveAleriga.py'],
     [('run_active_RPNI', DP + 'active_RPNI.py'), ('run_active_Alergia', L + 'stochastic_passive/ActiveAleriga.py')],
     EXH + ' of all random choices; oracle: runs of the reference table and the passive learner on the snapshot', 'The passive learners themselves are judged by C26-C28. ' + TRUST,
     quick='DFA/Moore/Mealy with <=3 states over 1 input or 2 over 2, MDP/SMM tables with 2 states; up to 2 walks of length <=3, 3 rounds; 400 executions per case', thorough='6000 executions, more tables')
ND = L + 'non_deterministic/'
prop('C31', 'Non-deterministic L* returns a model that has every trace of the system',
     'For every observable non-deterministic system, if every possible answer keeps being given and the equivalence oracle reports observed traces that the '
     'hypothesis lacks, learning terminates with an observable, input complete machine that has every trace of the system. Every hypothesis explains all '
     'traces observed so far, its states are reachable by their access traces and each of its transitions was observed after that trace. If every answer '
     'to every cell of the final table was observed, the model answers the words of its characterization set in each state exactly as the system does and '
     'is no larger than the minimal machine. Samples, the number of samplings and the answers seen first do not change this. In stochastic mode the '
     'result is a stochastic Mealy machine with proper distributions. With a round limit the model of the last allowed round is returned.',
     ['schedules', 'inputs', 'histories'], 'every bounded observable table x every answer schedule of the bounded kind x every counterexample choice of a truthful teacher',
     TESTS + 'they learn two fixed ONFSMs from random answers.', [ND + 'OnfsmLstar.py', ND + 'OnfsmObservationTable.py', ND + 'TraceTree.py', ND + 'NonDeterministicSULWrapper.py'],
     [('run_non_det_Lstar', ND + 'OnfsmLstar.py'), ('NonDetObservationTable', ND + 'OnfsmObservationTable.py')],
     EXH + ' against an adversarial system and teacher; oracle: product of the reference table and the model', 'Answers after the enumerated ones are fair (round robin per history). ' + TRUST,
     quick='tables with <=3 states over 1 input, 2 over 2, slices of 4x1 and 3x2, up to 3 answers per cell; first 5 answers enumerated', thorough='denser slices, first 7 answers enumerated')
prop('C32', 'Abstracted non-deterministic L* explains every trace of the system',
     'For every observable non-deterministic system and every abstraction of outputs that is compatible with it (states with the same abstract traces '
     'continue alike after the same input and concrete output), if sampling shows every answer to the words in the table and the equivalence oracle '
     'reports observed traces that the hypothesis lacks, abstracted learning terminates. In every hypothesis and the result, each state '
     'has its own access trace, which is a trace of the system, and offers for every input exactly the abstracted outputs the system has after it, and no '
     'two access traces lead to states with the same abstract traces. The result is an observable machine over '
     'the concrete outputs (no two transitions of a state carry the same input and output), has every trace of the system, hence explains '
     'everything observed, all its states are reachable, and it has at most one state per class of states with the same abstract traces. '
     'Reported numbers of states and rounds are those of the run.',
     ['schedules', 'inputs', 'histories'], 'every bounded observable table x every compatible output abstraction x every answer schedule of the bounded kind x every counterexample choice',
     TESTS + 'abstracted learning is not tested.', [ND + 'AbstractedOnfsmLstar.py', ND + 'AbstractedOnfsmObservationTable.py'],
     [('run_abstracted_ONFSM_Lstar', ND + 'AbstractedOnfsmLstar.py')],
     EXH + ' against an adversarial system and teacher; oracle: product of the reference table and the model', 'Answers after the enumerated ones are fair. ' + TRUST,
     quick='tables with <=3 states over 1 input, 2 over 2, up to 3 answers per cell, four output partitions; the rotation of up to 4 histories enumerated', thorough='denser slices, rotation of 6 histories enumerated')
prop('C33', 'The trace tree is a faithful multiset of the recorded traces',
     'After every sequence of resets, recorded steps, recorded traces and queries through the wrapper, the trace tree knows exactly the recorded traces '
     'and their prefixes: the node of a trace exists iff it was recorded, its counter is the number of times, the traces and sample counts reported for '
     'an input word after a prefix are exactly those recorded (no duplicates, none missing), the estimated output distribution is the relative frequency, '
     'and reading never changes the content. Queries through the wrapper return what the system answered to exactly the executed inputs and record it once. '
     'A counterexample found in the tree is a shortest recorded trace that the hypothesis lacks; none is reported iff the hypothesis has all recorded traces.',
     ['histories', 'inputs', 'schedules'], 'every sequence of operations up to the depth; every bounded system, query plan and answer sequence; every bounded hypothesis x pairs of traces',
     TESTS + 'the tree is only exercised through two learning runs.', [ND + 'TraceTree.py', ND + 'NonDeterministicSULWrapper.py'],
     [('TraceTree', ND + 'TraceTree.py'), ('NonDeterministicSULWrapper', ND + 'NonDeterministicSULWrapper.py')],
     EXH + '; oracle: a counter of traces', TRUST,
     quick='all operation sequences of length <=6 (2 inputs x 2 outputs + reset); plans of 3 queries with <=5 letters, all answers; all small hypotheses x pairs of traces of length <=2 (4 over one input)',
     thorough='operation sequences of length <=7, plans with <=6 letters')
SL = 'aalpy/learning_algs/stochastic/'
prop('C34', 'Sampling teacher counts exactly what was executed and finds counterexamples',
     'After every sequence of queries and guided queries, the frequencies the sampling teacher reports for a trace and a suffix are the numbers of executions that '
     'showed them, and a cell is complete iff its last input was executed at least n_c times after the trace, or the trace is excluded because the step '
     'that was never observed was tried at least n_c times. A guided query executes one query that follows the tree of wanted traces until it ends or an '
     'answer leaves it; every input of positive weight can be chosen. The breadth-first search of the samples returns a shortest sampled '
     'trace whose frequencies differ from those of the representative of the reached state or that the hypothesis cannot produce, and nothing iff there is '
     'none; the random search returns only such traces. The equivalence query repeats a counterexample until the hypothesis can follow it, then asks the '
     'samples and only then the oracle. For MDPs traces start with the initial output.',
     ['histories', 'schedules', 'inputs'], 'every bounded MDP and stochastic Mealy machine x plans of queries x answers x hypotheses x random choices',
     TESTS + 'stochastic learning is only run on benchmarks with random answers.', [SL + 'StochasticTeacher.py', SL + 'SamplingBasedObservationTable.py'],
     [('StochasticTeacher', SL + 'StochasticTeacher.py')],
     EXH + '; oracle: a counter of executed traces', 'random() is sampled on a grid. ' + TRUST,
     quick='systems with <=2 states over 2 inputs, <=3 over 1; plans of 3 queries with <=2 letters (3 over one input); all answers and choices up to a cap',
     thorough='denser slices of systems, plans and hypotheses')
prop('C35', 'Stochastic L* returns observed frequencies and, ideally, the minimal model',
     'For every observable MDP or stochastic Mealy machine, strategy and counterexample option, stochastic L* terminates within its round limit with a model of the '
     'requested type. Every hypothesis is input complete; each state has its own access trace, which was observed and leads there; the distribution of '
     'each input is exactly the relative frequency observed after that trace; the chaos state only stands for cells without (sufficient) data and is '
     'absent from hypotheses given to the oracle. If answers follow the true distributions as closely as possible, no two states of a hypothesis stand '
     'for states with equal behaviour, and after enough rounds (and without the experimental counterexample processing `rs`) the result is the minimal model up to the accuracy of the frequencies. Reported numbers are those of the run.',
     ['schedules', 'inputs', 'histories'], 'every bounded system x strategy x options x first answers and random choices',
     TESTS + 'benchmarks with random answers and statistical comparison.', [SL + 'StochasticLStar.py', SL + 'SamplingBasedObservationTable.py', SL + 'StochasticTeacher.py', SL + 'StochasticCexProcessing.py', SL + 'DifferenceChecker.py'],
     [('run_stochastic_Lstar', SL + 'StochasticLStar.py'), ('SamplingBasedObservationTable', SL + 'SamplingBasedObservationTable.py')],
     EXH + '; oracle: counter of executed traces and the reference table', 'After the enumerated answers and choices, answers follow the distribution ideally and random choices a fixed sequence. ' + TRUST,
     quick='systems with <=4 states over 1 input, <=3 over 2 (slices), 2-3 outputs, two option sets each; output cycles and locks of 4-9 states, five option sets each', thorough='denser slices, five option sets each')
prop('C36', 'Statistical tests decide exactly as defined on all frequency tables',
     'For every pair of frequency tables and significance level, the Hoeffding tests (classic, normal, Alergia, GSM) call the tables different iff some relative '
     'frequency differs by more than the sum of the two bounds (classic: or the observed outputs differ) and never without data; the chi-square test calls '
     'them different iff Pearson\'s statistic for homogeneity (with Yates\' correction for two outputs and a count below five, which only ever shrinks '
     'deviations) reaches the quantile of its level, and falls back to the Hoeffding test for disjoint outputs. Decisions do not depend on the order of '
     'tables or outputs, tables are not changed, difference values are symmetric and measure exactly this difference. Unsupported levels and '
     'numbers of outputs are rejected; the tabulated quantiles are those of the chi-square distribution.',
     ['inputs'], 'every pair of frequency tables over a set of counts, for every test and level', TESTS + 'the tests are only used inside randomised learning.',
     [SL + 'DifferenceChecker.py', 'aalpy/learning_algs/stochastic_passive/CompatibilityChecker.py', 'aalpy/learning_algs/general_passive/ScoreFunctionsGSM.py'],
     [('HoeffdingChecker', SL + 'DifferenceChecker.py'), ('AdvancedHoeffdingChecker', SL + 'DifferenceChecker.py'), ('ChiSquareChecker', SL + 'DifferenceChecker.py')],
     EXH + '; oracle: exact rational and 40-digit arithmetic', 'Pairs within 1e-9 of a threshold are not decided. ' + TRUST,
     quick='counts from 14 values for 2 outputs (0..5000), 6 for 3; 5 and 8 outputs on a few rows', thorough='20 values for 2 outputs, 8 for 3, 4 outputs')
prop('C38', 'State merging performs exactly the admissible and best-scoring merges',
     'For every data set, behaviour, score (default, EDSM, frequencies, AIC, greedy, combined, sink conditions, k-tails), threshold, node order and search order, '
     'generalized state merging builds the prefix tree of the data; a state is promoted only if it cannot be merged with any red state; a merge is only '
     'performed if it and everything it implies is admissible, its score is the one defined by the score function on the whole merge and is maximal among '
     'all candidates; custom node orders are respected; the result is exactly the quotient of the tree by the reported merges with summed counts. Progress '
     'reports count these events, and the merge violation debugger tells exactly those events that contradict the model it was given. Score combinators and transformers (combination, k-tails, sinks, greedy, thresholds, global compatibility) compute '
     'what they are defined to compute for every kind of score.',
     ['histories', 'inputs', 'configurations'], 'every labelled sample / multiset of traces in the bounds x score x option combinations, every step of the algorithm',
     TESTS + 'only final models of a few examples are looked at.', [GP + 'GeneralizedStateMerging.py', GP + 'ScoreFunctionsGSM.py', GP + 'GsmNode.py', GP + 'Instrumentation.py'],
     [('GeneralizedStateMerging.run', GP + 'GeneralizedStateMerging.py'), ('score functions', GP + 'ScoreFunctionsGSM.py')],
     EXH + '; oracle: union-find quotients of the prefix tree, all candidates scored at every step', 'Scores within 1e-9 of a threshold are not decided. ' + TRUST,
     quick='slices of labelings of words <=2 over 2 and <=5 over 1 input, all Mealy trees of depth 2, pairs and triples of traces of length <=3; options in a covering rotation',
     thorough='all of these, denser slices')
SAM = 'aalpy/utils/Sampling.py'
prop('C39', 'Sampled and loaded data sets are exactly the specified executions',
     'For every automaton and list of words, the sampling utilities return for each word the inputs with the outputs (or the last output) the automaton gives, '
     'with the initial output first for state-output models, and every possible output sequence of a random model can appear. Random word samplers produce '
     'every word of the allowed lengths with the specified probability (uniform length, or geometric with the termination probability) and nothing else; '
     'generated data of deterministic automata and visibly pushdown automata is truthful, within the length limits and, for the latter, duplicate free and prefix closed. '
     'The complete sample of a minimal deterministic automaton suffices for RPNI and state merging to learn exactly this automaton. Tokenizers and '
     'format conversions return exactly the recorded sequences and refuse malformed lines.',
     ['inputs', 'schedules'], 'every table in the bounds x every word, every random answer of the samplers, every bounded file content', TESTS + 'sampling and tokenizers are not tested.',
     [SAM, 'aalpy/utils/DataHandler.py', HF], [('get_complete_sample', SAM), ('tokenizers', 'aalpy/utils/DataHandler.py')],
     EXH + '; oracle: runs of the reference table, exact rational distributions', 'Complete for the stated tables. ' + TRUST,
     quick='deterministic machines with <=3 states over <=2 inputs (slices), random ones with <=2 states, VPA with <=2; files with <=3 short lines', thorough='denser slices')
MCH = 'aalpy/utils/ModelChecking.py'
prop('C40', 'Model checking results are those of the model and of the tool',
     'For every automaton, goal set, step bound and number of tests, statistical model checking returns the fraction of random runs that show a goal output, with '
     'exactly the probability the model gives to each fraction. Properties checked with PRISM are evaluated on exactly the exported model; every result '
     'the tool prints is returned with its value (also in scientific notation) in order, experiments report its rounding and its distance to the correct value, '
     'and learning stops based on confidence exactly if there are results and all distances are within the bound, for MDPs and stochastic Mealy machines: '
     'stochastic L* with property based stopping ends not before min_rounds, then as soon as the properties hold, at the latest after max_rounds. '
     'JAlergia receives exactly the data and its models carry the relative frequencies of the data. No temporary files stay behind and no model is changed.',
     ['inputs', 'schedules'], 'every table in the bounds x goal sets x step bounds with all random answers; every result format of the tool', TESTS + 'neither tool is run by the tests.',
     [MCH, 'aalpy/learning_algs/stochastic_passive/Alergia.py', 'aalpy/learning_algs/stochastic/StochasticLStar.py'], [('statistical_model_checking', MCH), ('evaluate_all_properties', MCH), ('stop_based_on_confidence', MCH)],
     EXH + '; oracle: exact rational path probabilities, a stand-in for the PRISM executable that records its input, replay of the data',
     'PRISM itself is not available: a stand-in prints given results in its format; JAlergia runs the jar shipped with the repository; stochastic systems answer as close to their distribution as possible. ' + TRUST,
     quick='machines with <=3 states over 2 inputs (slices), <=3 steps, <=2 tests; 11 result values in 4 formats; 1/7 of the pairs of traces of length <=2 for JAlergia', thorough='denser slices, all pairs of traces')
prop('C41', 'Learning runs leave arguments alone, are repeatable and independent',
     'A run of any learning algorithm (L*, KV, L#, adaptive L#, KV for visibly pushdown languages, non-deterministic, abstracted and stochastic L*, RPNI, EDSM, general '
     'state merging, k-tails, Alergia, PAPNI) leaves the objects it is given as they were: alphabets, samples and data sets of sequences (order and container types '
     'included, lists and tuples accepted alike), reference models, abstraction maps, the model behind the system. With the same arguments and '
     'the same answers and random choices, a second run returns the same model up to the names of states, also after another system was learned '
     'with the same alphabet and option objects or with another print level (level 0 prints nothing but warnings). A returned model shares no states or transitions with another one or with the arguments: later runs do not '
     'change it, and destroying it changes neither other models, nor arguments, nor later runs.',
     ['histories', 'inputs', 'configurations'], 'every learning algorithm x configurations in rotation x ordered pairs of systems (A, B) x the history A, B, A, destroy, A',
     TESTS + 'every test learns once with fresh objects.', ['aalpy/learning_algs/adaptive/AdaptiveLSharp.py', 'aalpy/learning_algs/deterministic_passive/rpni_helper_functions.py', 'aalpy/learning_algs/deterministic/LStar.py', 'aalpy/learning_algs/deterministic/KV.py', 'aalpy/learning_algs/deterministic/LSharp.py', 'aalpy/learning_algs/non_deterministic/OnfsmLstar.py', 'aalpy/learning_algs/non_deterministic/AbstractedOnfsmLstar.py', 'aalpy/learning_algs/stochastic/StochasticLStar.py', 'aalpy/learning_algs/deterministic_passive/RPNI.py', 'aalpy/learning_algs/deterministic_passive/active_RPNI.py', 'aalpy/learning_algs/general_passive/GeneralizedStateMerging.py', 'aalpy/learning_algs/stochastic_passive/Alergia.py'],
     [('run_Lstar', 'aalpy/learning_algs/deterministic/LStar.py'), ('run_KV', 'aalpy/learning_algs/deterministic/KV.py'), ('createPTA', 'aalpy/learning_algs/deterministic_passive/rpni_helper_functions.py'),
      ('run_GSM', 'aalpy/learning_algs/general_passive/GeneralizedStateMerging.py'), ('run_Alergia', 'aalpy/learning_algs/stochastic_passive/Alergia.py')],
     'exhaustive enumeration of run histories on the real code; oracle: comparison of canonical forms and of snapshots', 'Random choices follow one fixed sequence. ' + TRUST,
     quick='about 180 pairs of 2-3-state deterministic machines per type and the families, 60 pairs per kind of non-deterministic and stochastic ones, 60 of VPAs', thorough='about eight times as many pairs')
BS = 'aalpy/utils/BenchmarkSULs.py'
BV = 'aalpy/utils/BenchmarkVpaModels.py'
BE = 'aalpy/utils/BenchmarkSevpaModels.py'
prop('C42', 'Shipped benchmark systems behave as documented',
     'The benchmark systems that come with the library are what their names, comments and common definitions say: every VPA and 1-SEVPA of a named language (Dyck languages of '
     'order 1-4 with and without internal letters, single-nested ones, (a|b)^n (c|d)^n, (ab)^n (cd)^n, (abc)^n (def)^n, parentheses of odd depth, sums with brackets) accepts exactly the '
     'non-empty words of it over exactly its letters, so that VPA and 1-SEVPA variants agree; odd/even parity and balanced string systems decide their languages; every '
     'stochastic benchmark model is input complete with proper distributions and reachable states, the coffee machines (MDP, SMM and its minimal form) are trace equivalent and '
     'the gridworld slips onto the diagonal field with the stated probabilities; non-deterministic ones are observable; the date validator accepts exactly the days of a year '
     'without leap day, the mock MQTT broker acknowledges according to connection and subscriptions, generated arithmetic data is labelled correctly and within the stated length.',
     ['inputs', 'schedules'], 'every benchmark system x every word up to a length, every word up to two letters more whose prefix can still be accepted; every state and input of the stochastic ones',
     TESTS + 'they use the benchmark models as learning targets and never compare them with what they stand for.', [BS, BV, BE],
     [('vpa_L1', BV), ('sevpa_for_L1', BE), ('get_small_gridworld', BS), ('DateValidator', BS)],
     EXH + '; oracle: languages, grids and reactions programmed independently', 'sevpa_for_L10 and sevpa_for_L11 have no documented language. ' + TRUST,
     quick='all words up to 60000 per language (length 5-12), two letters more for live prefixes; dates 0-33/0-14 x 10 years; call sequences of length 4 of the broker; 3000 executions of the data generator per parameter set',
     thorough='1500000 words per language, call sequences of length 5, 30000 executions')
