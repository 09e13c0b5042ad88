COMMON=["rustc, LLVM optimisation level 1 and the native code generator translate the same source alike (sampled paths are replayed natively and compared)",
 "libz3 and the symbolic executor are trusted; floats are reals with IEEE rounding bounds, a claim of validity is an over-approximation and a counterexample is confirmed natively",
 "allocation never fails; panics abort; printing is ignored"]
TESTS="The 30 existing tests are 28 parser tests and 2 of one procedural scenario; "
SRC='src/'
p('V01','Every truth function yields a valid truth value',
 "Whatever valid truth values (frequency in [0,1], confidence in [0,1)) go into a truth function or into revision, the result is a valid truth value again, never a NaN or a value outside those ranges. Expectation and disjunction stay in [0,1]; weight/confidence conversions and counted evidence (positive out of total, total at least one) give valid confidences.",
 ['inputs'],'all valid truth values, all weights, all evidence counts',
 TESTS+"no test evaluates a truth function, and a test could sample only points of a four-dimensional real box.",
 ['src/Tv.rs','src/NarSentence.rs'],[('truth functions','src/Tv.rs: ded, abd, ind, comp, int, rev, neg, dedGoal, or, calcExp, w2c, c2w'),('counted evidence','src/NarSentence.rs: retFreq, retConf')],
 'frequency in [0,1], confidence in [0,0.999999], weights up to 1e6, evidence counts up to 1000, tolerance 1e-9.')
p('V02','Truth functions compute the NAL definitions',
 "Deduction, abduction, induction, comparison, intersection, negation, revision, goal deduction, expectation and the weight/confidence conversions compute the published NAL formulas with evidential horizon 1, up to rounding. Revision adds up the weights of both bodies of evidence: it never lowers confidence and the revised frequency is their weighted average, hence between the two. Evidence counted as positive out of total has frequency positive/total and confidence total/(total+1).",
 ['inputs'],'all valid truth values',TESTS+"no numeric value of any truth function is asserted anywhere.",
 ['src/Tv.rs','src/NarSentence.rs'],[('truth functions','src/Tv.rs'),('counted evidence','src/NarSentence.rs: retFreq, retConf')],
 'frequency in [0,1]; confidence in [0,0.999999] (revision: [0,0.99] for confidence, [0.03,0.97] for frequency); comparison for frequencies at least 0.001 or at most 4e-10; tolerance 1e-9 (revision 1e-6); revision of very little or very much evidence at selected confidences.')
p('V03','Evidence stamps: exact overlap test, complete and bounded merge',
 "Two stamps overlap exactly when they share an evidence id. Merging keeps every id of both stamps and invents none as long as both together hold at most 120 ids; beyond that the result has exactly 120 ids and both parents stay represented by their leading ids. Two stamps count as the same exactly when they hold the same ids in the same order.",
 ['inputs'],'all stamps up to the size bound, all 64-bit ids',TESTS+"stamps are not tested.",
 ['src/NarStamp.rs'],[('overlap','checkOverlap'),('zip-merge with limit','merge'),('sameness','checkSame')],
 'up to 4 arbitrary 64-bit ids per stamp (same: 3); sizes 0,1,59..61,90,119..121 with one arbitrary id at either end (or in the middle) of each stamp for the 120 limit and for overlap and sameness of long stamps.')
p('V04','Term identity, copies, complexity and subterms are structural',
 "Two terms are equal, for every comparison the reasoner uses, exactly when they have the same structure: kind, copula, name, component order and count, and image position; equal terms hash alike, and a copy equals its original. Complexity counts every name, variable, statement and negation in the term once. The subterms reported for a term are exactly the occurring ones including itself, and the unique list contains each exactly once.",
 ['inputs'],'all terms up to the size bound',TESTS+"only the terms of 28 sample strings are compared, by their printed form.",
 ['src/Term.rs'],[('equality','checkEqTerm, PartialEq'),('hashing','Hash for Term'),('size and subterms','calcComplexity, retSubterms, retUniqueSubterms')],
 'all pairs of depth-1 terms with up to 2 components, all pairs of depth-1 terms in every position of every depth-2 context, symbolic one-letter names and names of 0..3 arbitrary letters; complexity and subterms for depth-1 terms with up to 3 components and depth-2 terms; wide compounds (up to a dozen components) differing in one place or in length, and terms nested up to 11 levels differing at the bottom.')
p('V05','Unification is sound, complete and consistent; substitution exact',
 "Matching a pattern against a term succeeds exactly when one assignment of variable-free-at-the-top values to the pattern's variables makes it equal to the term, each variable having one value throughout, and applying the assignment found gives that term. Substitution replaces exactly the assigned variables, at every position, and nothing else.",
 ['inputs'],'all pairs of terms up to the size bound, all coincidences of names',TESTS+"unification is not tested.",
 ['src/NarUnify.rs'],[('matching','unify, unify2, checkUnify'),('substitution','unifySubst')],
 'all pairs of depth-1 terms with up to 2 components over 3 letters, all variable kinds, depth-2 contexts with repeated variables and compound values; patterns of up to 10 variables with one repeated, substitutions of many variables, terms nested up to 10 levels.')
p('V06','Single-premise rules: exactly the licensed conclusions',
 "A single judgement yields exactly the conclusions of the structural rules: negation elimination, decomposition of intensional intersections on either side (at least the first three components), product to image and image to product for two components, removal of singleton sets in similarities, and decomposition of predicted parallel conjunctions. Each has the rule's truth value (that of the premise, negated for negation), is a judgement and rests on the evidence of its premise; questions and goals yield nothing.",
 ['inputs'],'all premises up to the size bound, all truth values',TESTS+"no rule application is tested.",
 ['src/NarWorkingCycle.rs'],[('structural rules','infSinglePremise, infSinglePremise2, infStruct*')],
 'statements over depth-1 terms with up to 4 components on one side or up to 2 on both, every copula, depth-2 negations; compounds of 3, 5 and 9 components with a nested last one.')
p('V07','Two-premise rules: exactly the licensed conclusions, in any order',
 "Two premises without common evidence yield, whichever is given first, exactly the conclusions of the two-premise rules: transitivity of inheritance, implication and predictive implication; abduction, induction, comparison and intersection for shared subject or predicate; union of intensional sets; detachment and conditional detachment (of any of the first four conditions) by unification; and answers to implication questions. Each conclusion has the truth value which the rule's truth function gives for its premises in their roles, is a judgement, and it is reported correctly whether any rule applied.",
 ['inputs'],'all pairs of premises up to the size bound, both orders, all truth values',TESTS+"no rule application is tested.",
 ['src/NarWorkingCycle.rs','src/Tv.rs'],[('rule dispatch','inference, inference2, infBinary'),('rules','inf0..., infCondDetach...')],
 'all pairs of statements over 4 letters and every pair of copulas; shared depth-1 compounds; sets with up to 2 elements; conjunctions of 2..5 conditions; every punctuation; sets of 6 to 9 elements, conjunctions of 9 conditions and shared terms nested up to 8 levels.')
p('V08','Evidence is never counted twice and never lost in inference',
 "Premises whose stamps share evidence yield no conclusion at all, whichever rule would apply, and premises with disjoint evidence do yield one. Every conclusion rests on all the evidence of its premises and on no other evidence; a single-premise conclusion rests exactly on that of its premise.",
 ['inputs'],'all stamps, every rule, both orders, events and eternal premises',TESTS+"nothing tests stamps of conclusions.",
 ['src/NarWorkingCycle.rs','src/NarStamp.rs'],[('overlap test before inference','inference'),('stamp of the conclusion','inference, infSinglePremise2')],
 '1..3 arbitrary 64-bit ids per stamp, one premise pair for each two-premise rule and one premise for each structural rule; stamps of up to 60 ids with an arbitrary last id.')
p('V09','Belief memory: complete, ordered, bounded, nothing lost but the worst',
 "Storing a judgement files it, unchanged, under every subterm of its term and under nothing else; a judgement of the same term whose evidence overlaps a stored one changes nothing, and questions and goals are never stored. Belief tables stay sorted by merit and within their limit, dropping only the least valuable. Looking up a term returns exactly the beliefs about it, and limiting the memory keeps the best rated concepts with their beliefs intact.",
 ['inputs','histories'],'all store sequences up to the bound, all truth values, evidence ids, usage records and limits',TESTS+"belief memory is not tested.",
 ['src/NarMem.rs','src/NarSentence.rs'],[('store','storeInConcepts'),('lookup','ret_beliefs_of_concept, ret_beliefs_by_terms_nonunique'),('forgetting','limitMemory')],
 'up to 3 stores of four terms with one or two out of 5 evidence ids, table limits 1..3; limiting of 1..4 concepts to 0..4; tables of 6 and 14 beliefs taking one more of any merit, big terms (12 levels, wide compounds), 8 and 30 concepts limited.')
p('V10','Revision pools disjoint evidence for the same belief, everywhere',
 "New evidence for a known judgement revises it exactly when the terms are equal, both are judgements and their evidence is disjoint: the revised belief has the revised truth value and both bodies of evidence, replaces the old one in every concept of the term, and leaves all other beliefs alone. Otherwise nothing changes.",
 ['inputs'],'all truth values, evidence ids and term shapes within the bound',TESTS+"revision in memory is not tested.",
 ['src/NarWorkingCycle.rs','src/NarMem.rs'],[('revision','memReviseBelief')],
 'one stored belief with two arbitrary ids plus an unrelated one; new sentence with one arbitrary id.')
p('V11','Task admission: one task per judgement and evidence, fully indexed',
 "A sentence within the complexity limit enters the declarative reasoner: a judgement becomes exactly one task with its own truth value and evidence, the configured starting credit and a fresh id, found under every subterm of its term and nothing else, unless a task with the same term and evidence exists; a question becomes one open question; a revised belief gets a task of its own. A sentence above the limit, or a goal, leaves no trace, and a belief is stored exactly when it is neither known nor revised.",
 ['inputs','histories'],'all histories of additions up to the bound, all evidence ids, truth values and complexity limits',TESTS+"task admission is not tested.",
 ['src/NarWorkingCycle.rs'],[('admission','memAddTask, memAddTask2'),('belief storage','memReviseBelief, NarMem::storeInConcepts')],
 'histories of 2 and 3 additions (4 in thorough) over four terms, evidence id out of 3, the last addition of any punctuation and with a complexity limit out of {1,2,3,5,20}; big terms at and below their complexity with 40 evidence ids; one addition after 5, 20 and 40 tasks.')
p('V12','Attention: credit decays as specified and selection follows it',
 "The effective credit of a task is (0.2 * question credit + own credit) * exp(-0.001 * age) * multiplier: finite, never negative and never growing with age. Top selection always returns a task no other task beats, and roulette selection returns the entry whose share of the total covers the drawn value, for every drawn value.",
 ['inputs'],'all credits, multipliers, ages and drawn random values within the bound',TESTS+"selection is not tested.",
 ['src/NarWorkingCycle.rs'],[('credit','taskCalcCredit'),('selection','taskSelByCreditTop, taskSelByCreditRandom, task2SelByCreditRandom, conceptSelByAvRandom')],
 'credits up to 100, up to 4 tasks (top selection) or 3 entries (roulette), ages out of {0,1,10,1000,100000} (selection: 0 and 500).')
p('V13','Questions: handlers hear every better answer, and only those',
 "A judgement answers a question exactly when it unifies with it; goals and questions never do. Each answer with a strictly higher expectation than the best so far is reported once to the handler of the question and to every global handler, becomes the best, and nothing else is reported or changed.",
 ['inputs','histories'],'all sequences of candidate answers up to the bound and all truth values',TESTS+"answers are not tested.",
 ['src/NarWorkingCycle.rs','src/NarUnify.rs'],[('answering','qaTryAnswer')],
 'sequences of up to 3 candidates out of five terms for four questions (none, one, two, or a repeated variable), any previous best expectation; up to 33 global handlers, questions with up to 9 variables and up to 20 earlier answers.')
p('V14','Reasoning cycle: attends to the best task, answers, forgets within bounds',
 "Each cycle advances time by one, gives every task its base credit divided by its complexity and lends the credit of each question to exactly the tasks it shares a subterm with; then the task with the highest credit leaves the buffer and is processed with every indexed task it shares a subterm with (each once, simplest first) and with no other, and their usage is recorded. An open question is answered by the best matching belief in memory, temporal questions by procedural knowledge. Regularly the buffer is cut to at most 30 tasks, keeping the best and dropping worthless ones, with the index rebuilt to match exactly; flushing drops all tasks but neither beliefs nor questions.",
 ['inputs','histories'],'all credits, priorities, ages, random draws and truth values for the task sets within the bound',TESTS+"the cycle itself is only run end to end on two fixed examples.",
 ['src/NarWorkingCycle.rs'],[('cycle','reasonCycle'),('credit','taskCalcCredit, divCreditByComplexity'),('cut','reasonCycle, populateTaskByTermLookup'),('flush','flushTasks')],
 'up to 3 tasks out of five terms with arbitrary credits and none or one question; cut of 2..35 tasks, two of them with arbitrary credit; two answers of arbitrary truth value; buffers of 6, 20 and 45 tasks with up to 8 questions at six points in time, one credit arbitrary.')
p('V15','Derivation: everything the rules license in a step is believed and answered',
 "When the worker processes a task, every conclusion the inference rules license for it with its partners, with every belief about its term and alone is stored as a belief with that truth value and evidence and becomes a task with the multiplier inherited from its parent, unless it is above the complexity limit, in which case it leaves no trace. A conclusion that answers an open question is reported to its handler.",
 ['inputs'],'all truth values and complexity limits within the bound',TESTS+"two fixed examples are tested.",
 ['src/NarWorkingCycle.rs'],[('worker','createMem2'),('storage','memAddTask')],
 'six premise pairs (deduction, detachment, variable elimination, similarity, shared subject, product), truth values arbitrary in one or two components, complexity limits 2..6 and 20, one cycle; 1 to 20 partners, up to 8 questions, a belief about the term of the task in either table.')
p('V16','No schedule deadlocks the reasoner or loses a conclusion',
 "Whatever the interleaving of the reasoner with its deriver threads and with a thread that adds tasks: no schedule blocks for ever, listing tasks always terminates, the licensed conclusion is derived, believed and reported, and premises are not lost. Tasks added by two threads at once, or during a cycle, are all kept and indexed, with different ids, and none is processed twice.",
 ['schedules'],'all interleavings at lock acquisitions with up to the bounded number of preemptions, and all truth values',"Schedules are not controlled by the tests; a deadlock needs a preemption between two particular lock operations.",
 ['src/NarWorkingCycle.rs'],[('worker thread','createMem2'),('locks','memAddTask, reasonCycle, debugCreditsOfTasks')],
 'one preemption at any lock operation (two for listing; thorough: two and three) besides the blocking switches, two cycles with one question and two premises; one task added by each of two threads, or one during a cycle.',
 ['sequentially consistent memory; switches only at compare-and-swap operations and blocking calls (every lock acquisition is one)'])
p('V17','Narsese text means exactly the term and sentence written',
 "Every well-formed line denotes exactly the term, punctuation, tense and truth value written, for every name, variable kind, nesting, component count and image position; a line without truth value gets frequency 1 and confidence 0.9. No component is lost, reordered or duplicated, and names are kept character by character.",
 ['inputs'],'all lines of the supported grammar up to the nesting bound',"The parser tests compare 28 sample lines.",
 ['src/NarseseParser.rs'],[('grammar','parse0, parseNarsese'),('truth value','parseNarsese')],
 'every form of the grammar over every leaf kind, every form inside every form, products, sequences and conjunctions of 2 to 4 components; names of 1 to 3 symbolic characters, selected lengths up to 500, two- and three-byte letters; up to 20 components, selected nesting up to 30 levels; truth values with up to two symbolic digits (of up to three).')
p('V18','Any line of text is parsed or rejected, never a crash',
 "Whatever the line, valid Narsese or not, ASCII or not, parsing terminates with a sentence or a rejection; a sentence accepted always carries a valid truth value (frequency in [0,1], confidence in [0,1)). A line with a malformed or out of range truth value is rejected.",
 ['inputs'],'all texts up to the length bound and all one-character corruptions of sample lines',"The parser tests contain only well-formed lines.",
 ['src/NarseseParser.rs'],[('parser','parseNarsese')],
 'all ASCII texts of up to 5 characters (thorough: 6), texts of up to 4 characters including two- and three-byte UTF-8; sample lines with one character replaced, inserted or removed; arbitrary characters inside the truth value; 42 malformed or out of range truth values, three of them with a symbolic digit.')
p('V19','Goal store: each goal once, grouped by term and depth, the best kept',
 "A goal is kept exactly once however often it is told with the same evidence (and again after it was dropped), filed by term and depth, operations in the active set, remembers the evidence it comes from, and is found by its term. Limiting keeps exactly as many goals as configured, drops only goals of least utility (expectation times desirability, decaying with age) and alters none. An event makes exactly the goals with its term undesired when satisfaction is enabled and touches no other.",
 ['inputs','histories'],'all histories of up to 3 goals (4 in thorough) over six terms, all desires, ages, desirabilities and depths within the bound',TESTS+"the goal system is not tested.",
 ['src/NarGoalSystem.rs'],[('adding','addEntry'),('limit','limitMemory'),('satisfaction','event_occurred'),('lookup','query, retEntries')],
 'up to 3 goals (4 in thorough), limit 1 to 3, three depths, symbolic confidences and desirabilities, ages 0, 50 and 100, evidence id out of 2; 6, 20 and 40 goals of one or five depths told twice, one desire varied.')
p('V20','Subgoals: licensed, complete and of right desire; selection by state is best',
 "A subgoal is derived exactly when a prediction leads to the goal and their evidence is disjoint, with goal-deduction desire and both evidence, and the first step is detached from sequences; one round derives every subgoal of the sampled goal and nothing unlicensed, one level deeper and remembering its prediction. The goal selected for a state applies in that state, made concrete by it, and none applicable is more expected. Sampling gives every depth that holds goals an equal share of the draws.",
 ['inputs'],'all desires, evidence ids, random draws and memories of predictions within the bound',TESTS+"goal derivation is not tested.",
 ['src/NarGoalSystem.rs','src/NarInfProcedural.rs'],[('derivation','infGoalBelief, infGoalDetach, sampleAndInference'),('selection','selHighestExpGoalByState'),('sampling','sample')],
 'up to 4 predictions, 0, 2 or 3 rounds, stamps of up to 2 ids, up to 3 goals of six patterns for five states, up to 3 goals of four depths for sampling; up to 18 goals with sequences of up to 5 steps for one state, and up to 25 predictions for one goal.')
p('V21','Operations, predictions and intervals are recognised and built exactly',
 "A term is an operation exactly when it has the form <{(args)} --> name> with at least one argument; decoding and encoding keep arguments and name. A prediction is built from chosen events exactly when everything between a first and a different last state is a registered operation, and says just that. Time spans map to the longest exponential interval (integer parts of powers of 1.3 up to 20) not above them, and the event trace keeps the newest 20 events in order.",
 ['inputs','histories'],'all terms, event choices and 64-bit time spans within the bound',TESTS+"none of them decodes an operation, maps an interval or overflows the trace.",
 ['src/TermUtils.rs','src/NarProc.rs'],[('operations','decodeOp, encodeOp'),('prediction','try_build_implSeq, calcIdxsOfOps'),('intervals','narInit, findMinTableIdx'),('trace','TraceDefault')],
 'up to 3 arguments, one of them any term of depth 1; 3 to 4 events of six kinds; any 64-bit time span; traces of up to 30 events.')
p('V22','Perception learns only what happened, in order, with the right evidence',
 "Whatever the random choices, a perception step learns only predictions whose condition, operation and outcome happened in that order in the trace, with exactly the three event ids as evidence, the interval from operation to outcome, and the evidence count of the operation, stored under condition, outcome and all their subterms. Every such combination ending in the newest event (or the one before it) can be learned, and perceiving changes neither the trace nor time.",
 ['inputs','schedules'],'all random choices and all traces within the bound',TESTS+"perception depends on random draws no test controls.",
 ['src/NarProc.rs'],[('perception','TraceDefault::step, narStep0'),('storage','storage worker in narInit, mem_add_evidence')],
 'traces of 2 to 4 events out of four kinds and eight fixed traces of up to 5 events, one or two samples per step, three time spans, one operation per prediction; two traces of 12 and 20 events.',
 ['one operation per prediction (the configurable number of operations is left at its default of 1)'])
p('V23','Procedural evidence adds up, is never counted twice, and generalises soundly',
 "Evidence for a known prediction with disjoint stamps and an interval not above the stored one adds its counts and ids to every stored copy; otherwise the observation is stored once, unless a belief with that term shares evidence with it; nothing else is stored or changed. A variable is introduced exactly for a thing with a property which occurs again in the prediction: every occurrence becomes the same variable with a fresh name, nothing else changes and evidence and interval are kept.",
 ['inputs','histories'],'all histories of observations within the bound, all coincidences of names',TESTS+"revision of procedural evidence is not tested.",
 ['src/NarProc.rs','src/NarInfProcedural.rs','src/NarMem.rs'],[('storage and revision','storage worker in narInit'),('generalisation','matchandintro_var1_sentence, mem_add_evidence')],
 'histories of 2 (four terms) and 3 (two terms) observations with symbolic counts and intervals and one out of two shared ids; variable introduction for three kinds of things in all positions of eleven contexts; 2 to 12 observations of one prediction among up to 25 others; things occurring deep inside and among up to 9 components.')
p('V24','Anticipations are confirmed, disappointed or kept, exactly',
 "In every step an anticipation is dropped without harm exactly when its outcome is among the two newest events, otherwise it adds one piece of negative evidence to its prediction and is dropped exactly when due, otherwise it stays. The newest event satisfies exactly the goals with its term.",
 ['inputs','histories'],'all event traces, deadlines, counts and coincidences of names within the bound',TESTS+"anticipation is exercised by one fixed scenario only.",
 ['src/NarProc.rs','src/NarGoalSystem.rs'],[('anticipation','narStep0'),('satisfaction','TraceDefault::step, event_occurred')],
 'up to 3 events and 2 anticipations, which may share their prediction, any time up to 1000, deadlines within 3 of now; 3, 10 and 30 anticipations with up to 15 events, one deadline arbitrary.')
p('V25','Decisions: the most expected desired operation is executed once, or nothing',
 "Each step executes at most one operation: the desired operation goal with the highest expectation above the decision threshold, called once with its arguments, recorded as an event, removed from the waiting goals and its outcome anticipated within the interval of its prediction; unregistered operations are never called, and only if nothing was decided may a babbleable operation be tried at random when enabled. A goal sequence whose condition is among the two newest events leads to its operation with variables bound by the situation, and so can a chain of up to two predictions, chosen at random among the alternatives, from the newest event to a goal, if above the threshold. No combination of events and goals makes a step crash, and each step advances time by one.",
 ['inputs','histories'],'all expectations, desirabilities, evidence counts and random draws within the bound',TESTS+"two of them run one fixed scenario.",
 ['src/NarProc.rs','src/NarGoalSystem.rs'],[('decision','narStep1'),('reaction','narStep1, selHighestExpGoalByState'),('planning','narStep1')],
 'up to 2 waiting operation goals (3 in thorough), up to 3 sequence goals with up to 3 events, chains of up to 2 predictions, goal derivation switched off by configuration; up to 25 waiting goals with up to 6 arguments among up to 12 operations, one expectation arbitrary; up to 15 irrelevant predictions and 12 further goals for planning.',
 ['goal derivation within the step is switched off by configuration; it is covered by V20'])
p('V26','Every input sentence reaches exactly the part of the reasoner it is meant for',
 "An event judgement becomes the newest event, an event goal a goal, an event question an open question, an eternal judgement a task and belief, a told prediction (operation sequence leads to outcome) procedural evidence of ten out of ten; each keeps its term and truth value and gets an evidence id of its own, and nothing else changes. Forms which are not supported and lines which are not understood have no effect, and text input reports whether it was understood.",
 ['inputs','histories'],'all combinations of punctuation, tense and term kind, all truth values and times, up to two inputs in a row',TESTS+"none of them checks where input goes.",
 ['src/Nar.rs'],[('dispatch','inputT2, inputN'),('entry points','memAddTask, addEntry, event_happened, mem_add_evidence')],
 'six small and four large term kinds, three punctuations, both tenses, any truth value and time up to 1000; two inputs in a row over three term kinds, seven in a row of one kind; fourteen lines of text with four line endings.')
p('V27','Commands do exactly what they say, and no line crashes the command interface',
 "Comments and empty lines do nothing; the step, cycle, flush, register, babbling, report and quit commands have exactly their own effect (cycle counts as given, procedural half steps included), report only what was asked, and only the quit command quits. Whatever the line, the interface does not crash and time never goes back.",
 ['inputs'],'all commands in a populated reasoner, all ASCII lines up to the length bound',TESTS+"the command interface is not tested.",
 ['src/NarInputFacade.rs'],[('commands','input')],
 '67 command lines, with four line endings, up to 6 operations registered before and any time up to 100000; cycle counts up to 260; lines with non-ASCII letters at nine places of six prefixes; all ASCII lines of up to 3 characters and all command prefixes followed by up to 2 arbitrary characters; the natural language command needs a database and lies outside.')
p('V28','Standard operations act exactly as documented, whatever their arguments',
 "The execute-and-inject operation executes the registered steps of its sequence once each, in order, with their arguments, and then injects its event at the current time; the relation operation adds its relation as a fully true judgement with enumerations rewritten to intersections and nothing lost. Malformed calls do nothing and no call crashes.",
 ['inputs'],'all step sequences and argument lists within the bound',TESTS+"operations are not tested.",
 ['src/OpLib.rs'],[('operations','Op_nal9__exec_and_inject, Op__nlp_rel_0')],
 'all sequences of up to 3 steps of six kinds (0 to 5 arguments of their own) and two longer ones, four argument lists, any time up to 1000; sixteen relations and three argument lists, with and without a memory.')
p('V29','Automatic differentiation and networks are exact',
 "For all finite inputs, sum, difference, product, quotient, exponential, dot product, rectifier, sigmoid and neuron give the mathematical value together with its exact derivative, and a two-layer network is its layers applied in order. A network is built from a parameter vector by consuming each parameter once in order (weights, then bias, layer by layer; bias scaled by 15 and 8) with derivative one exactly at the differentiated parameter. Vector sum, scaling, scalar product, length and cosine similarity are the mathematical ones.",
 ['inputs'],'all values and derivatives within the bound',TESTS+"nothing numeric is tested.",
 ['src/ad.rs','src/Nn.rs','src/mlutils.rs','src/ModNlpA.rs'],[('dual numbers','ad: add, sub, mul, div, exp, dot, reluAct, sigmoidAct, calc'),('networks','buildNnFromParameters, forward'),('vectors','mlutils')],
 'values and derivatives in [-10,10] (divisor at least 0.5 in size, activation inputs in [-4,4]), up to 4 terms; networks with up to 3 inputs, 3 hidden and 2 output neurons and any differentiated parameter; sigmoid also at -18, -9, 9 and 18; tolerance 1e-6.',
 ["the exponential is a positive monotone function, equal for equal arguments, of which the solver knows interval bounds only"])
p('V30','Images: cells, crops, drawings, arithmetic and convolution are exact',
 "Reading outside an image gives zero and writing outside changes nothing; writing inside changes that cell only. Cropping copies exactly its rectangle (zero outside); boxes, circles (cells within the radius) and lines (cells at most 1.5 from the segment) fill exactly their cells. Sum, difference, division, squared norm and convolution with kernels of even size are the mathematical ones, cell by cell.",
 ['inputs'],'all images, positions and sizes within the bound',TESTS+"images are not tested.",
 ['src/Map2d.rs','src/ModVisionC.rs'],[('cells','readAt, writeAt, crop, clone'),('drawing','map2dDrawBox, map2dDrawCircle, drawLine'),('arithmetic','add, sub, divScalar, distPow2, convo, convWithoutBorder, generateGaborKernel')],
 'images up to 3x3 with any cell values (circle 7x6, line 6x6, convolution up to 8x6 with 2x2 and 4x2 kernels), positions from -1 (one harness: any position within +-1000), radius up to 3; cells on the boundary of a line are not judged; gabor kernels up to 4x4: centre, sign and bound only; crops, boxes and circles in images of 12x9 and 3x20 at selected places and sizes.')
p('V31','Pong: ball and bat stay in the field, every ball is counted once',
 "From any state inside the field, a step advances time by one, moves the ball by its velocity (horizontally every second step) bouncing off the walls, and keeps ball and bat within their ranges, whatever the random draws. A ball that reaches the bat line is counted exactly once, as a hit exactly when it is within the bat's width, otherwise as a miss. The ball respawns exactly when it leaves the field, in the half away from the bat.",
 ['inputs','schedules'],'all states of the game, all random draws',TESTS+"the environment is not tested.",
 ['src/EnvPong3.rs'],[('step','simStep'),('start','makeEnvState')],
 'field 50x20, bat widths 6 and 3, any ball and bat position in range, bat velocity -4..4, no extra horizontal velocity, any draws (one inductive step, so all runs).')
p('V32','Language front end: codes, network input, decoding and relations are exact',
 "Every known word gets its word class and every class its documented code, followed by the stop code; the network input is the one-hot encoding of the last twelve codes, right aligned and padded, whatever the length of the sentence. The decoded action is the first output with the greatest activation clamped to [0,1], or 0 if none is active. An extracted relation becomes a judgement which the parser reads back as exactly that relation and truth value.",
 ['inputs'],'all sentences over the vocabulary, all activations',TESTS+"the front end is not tested.",
 ['src/ModNlpA.rs'],[('words','conv_tokens_to_poss, prot_pos0, pos_ret_codes'),('encoding','encode_onehot, conv_seq_to_nninput'),('decoding','calc_max_onehot_idx, conv_rel_to_narsese')],
 'sentences of up to 2 of the 24 words, sequences of up to 40 codes with one arbitrary code, up to 5 outputs with activation in [-2,2], relations over 5 words.')
p('V33','Usefulness of knowledge grows with use, fades with age, stays in [0,1)',
 "The usefulness of a belief is uses/(uses+age+1), where age is the time since its last use and never negative: it lies in [0,1), never falls with more or more recent use, and a use is counted once and dated now. Limiting attention keeps the first items, in order and unchanged, and at most as many as allowed.",
 ['inputs'],'all use counts and times within the bound',TESTS+"usage is not tested.",
 ['src/NarSentence.rs','src/AeraishPerceptionComp.rs'],[('usefulness','calcUsageUsefulness, usageUpdate'),('limit','AeraishPerceptionComp::limit')],
 'times up to 1000 with uses 0, 1, 2, 7, 1000 and ages 0, 1, 2, 5, 50, 1000; uses up to 1000 for ages 0, 1, 3, 20, 1000; up to 4 items.')
p('V34','Text shown to users is exact and unambiguous; answers reach clients once',
 "The text of a term shows its kind, copula, names, variable prefixes, image position and components in order, different terms have different texts, and the text of a sentence adds punctuation and, unless it is a question, its truth value. Evidence is shown as its ids in order and the task report lists each task once. An answer is published to the clients exactly once, numbered after everything published before, with question, answer and truth value.",
 ['inputs'],'all terms and messages within the bound',TESTS+"28 tests compare the texts of parsed samples; answers and reports are not tested.",
 ['src/Term.rs','src/NarSentence.rs','src/NarServer.rs','src/NarStamp.rs','src/Eval.rs','src/NarWorkingCycle.rs'],[('text','convTermToStr, convSentenceTermPunctToStr, NarStamp::convToStr, debugCreditsOfTasks'),('answers','QHandlerImpl')],
 'terms of two levels with 2 or 3 components (sets, negations and images also 1) and symbolic letters, pairs of one-level terms, four truth values, up to 4 ids, up to 2 tasks and answers after up to 2 older messages.')
p('V35','Prototype classifiers: best match wins, evidence is pooled, nothing else changes',
 "Quantising a value in [0,1] sets exactly its level; evidence vectors are revised and compared element by element and folding pools all their evidence. The winner is the oldest prototype of greatest similarity, if that is at least one half. Learning adds the stimulus to exactly the winner with its time of use, or stores it as exactly one new prototype when nothing matches; classifying without learning changes nothing.",
 ['inputs'],'all stimuli and prototypes within the bound',TESTS+"classifiers are not tested.",
 ['src/ModVisionB.rs','src/ModVisionD.rs','src/TvVec.rs'],[('evidence vectors','revVec, compVec, foldVec, quantisize, conv_to_tv_vec, conv_img_to_tv_vec'),('classifiers','calc_sims, classify_max, classify')],
 'up to 4 similarities of any value (up to 30 with the last one arbitrary); up to 2 prototypes and 2 channels with selected evidence; 2 to 6 levels and any value; vectors of up to 3 entries.')
na('V36','Server: lines of all clients reach the reasoner, answers reach all clients',
 "Every line received from a client is given to the reasoner once, in order per client, and every message published since a client's last line is sent to it once.",
 ['schedules'],'all connection interleavings',TESTS+"the server is not tested.",['src/NarServer.rs'],[('connections','acceptLoop, connectionLoop, run')],
 "the connection code is an async-std task over real TCP sockets (executor, reactor threads, epoll): the runtime and the kernel interface cannot be encoded by the executor; the handler that publishes answers is covered by V34.")
na('V37','Learned language network survives storing and loading',
 "Loading the stored network gives back every weight and bias at its place.",
 ['inputs'],'all networks',TESTS+"storage is not tested.",['src/ModNlpA.rs'],[('storage','nn_store, nn_load')],
 "stored in SQLite, a large C library compiled to machine code outside the Rust IR and working on files: it cannot be encoded.")
na('V38','Files and terminal: every line is read once and obeyed until quit',
 "Reading a file or the terminal passes every line once and in order to the command interface and stops at quit.",
 ['inputs'],'all files',TESTS+"reading is not tested.",['src/NarUtilReadn.rs','src/NarInteractive.rs'],[('reading','readNarseseFile, runInteractive')],
 "the loops consist of file and terminal system calls, which the executor does not model; what happens to each line is covered by V26 and V27.")
na('V39','Long learning runs improve: pong, tic-tac-toe and the evaluation succeed',
 "In the built-in environments the reasoner learns to act better than chance.",
 ['histories'],'all runs',TESTS+"environments are not run by tests.",['src/Reasoner1Entry.rs','src/ProcTicTacToe.rs','src/ProcChaosEntry.rs','src/Eval.rs'],[('environments','run')],
 "a statistical statement about thousands of steps of the whole reasoner with random draws: far beyond any bound a solver can unroll; the steps themselves are covered by V22 to V25 and V31.")
