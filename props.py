# property texts; gen.py derives properties.jsonl and the check list of MANIFEST.json from this file and registry.py
T = {}
def P(pid, title, statement, over, qtext, why, files, mech, bounds='', note='', na=None, technique=None):
    T[pid] = dict(title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, bounds=bounds, note=note, na=na, technique=technique)

P('C01', 'Bounded buffer: FIFO, capacity, nothing lost, no lost wakeup',
  'Items leave the bounded buffer in the order in which they entered, each exactly once, and the buffer never holds more than its capacity. '
  'A blocked producer (consumer) continues whenever space (an item) becomes available, whichever operation made it available, and a timed operation either succeeds or leaves the buffer unchanged. '
  'Try and timed operations report truthfully whether they succeeded, and size, emptiness and remaining space agree with the contents.',
  ['schedules', 'histories', 'inputs'], 'all item values, all operation sequences and thread schedules within the bounds',
  'The tests push and pop with a few threads under whatever schedule the machine yields; lost wakeups and reorderings need particular interleavings and particular mixtures of operation flavours.',
  ['include/common/GBoundedBufferT.hpp'], [('two condition variables and one mutex around a deque', 'include/common/GBoundedBufferT.hpp')],
  bounds='operation sequences of length 3-4 over all 12 operations with capacity 1, 2 and unlimited; 2-3 threads with up to 3 preemptions at synchronisation operations; up to 2 spurious/early timeouts')
P('C02', 'Thread pool runs every task exactly once and delivers its outcome',
  'Every task submitted to the thread pool runs exactly once, and its value or exception reaches the submitter through the returned future. '
  'Waiting for the pool, changing its number of threads and destroying it return only after all tasks submitted before have finished. '
  'A throwing task neither stops other tasks nor the pool.',
  ['schedules', 'histories'], 'all schedules of submitters and workers within the bounds, all result values',
  'The tests run large numbers of tasks under the schedules that happen to occur and do not observe the futures of tasks without a result.',
  ['include/common/GThreadPool.hpp', 'src/common/GThreadPool.cpp', 'src/common/GThreadGroup.cpp'], [('task counter, condition variable, thread group', 'src/common/GThreadPool.cpp')],
  bounds='1-3 workers, up to 3 tasks, 2 submitters, 1 preemption in addition to all blocking switches; boost::asio::io_service is replaced by a queue model', note='boost::asio io_service is modelled')
P('C03', 'Fixed-size priority queue keeps exactly the best items, in order',
  'After any sequence of additions, single or in batches, cloned or not, the queue holds exactly the best items offered, as many as its maximum size permits, ordered from best to worst for the chosen sort order. '
  'The same item never occupies two places, best, worst and pop agree with that order, and changing the maximum size only ever drops the worst items. '
  'Cloned items and copied queues are independent of their originals.',
  ['inputs', 'histories', 'configurations'], 'all finite evaluations (including ties), both sort orders, all cloning and replacement modes, queue sizes 0 (unlimited) to 3',
  'Tests use random evaluations and one or two queue sizes; wrong truncation only shows for particular relative orders of old and new items.',
  ['include/common/GFixedSizePriorityQueueT.hpp'], [('sorted insertion, trimming and de-duplication by id', 'include/common/GFixedSizePriorityQueueT.hpp')],
  bounds='up to 4 items (thorough: 5) with symbolic double evaluations')
P('C04', 'Barrier, singleton and thread group keep their synchronisation promises',
  'No thread passes the barrier before the required number of threads has arrived, exactly one of them is told so, and the barrier can be used again. '
  'All threads asking for a global singleton get the same, completely constructed object, which is created once. '
  'Joining a thread group returns only after every thread of the group has ended.',
  ['schedules'], 'all schedules of 2-3 threads within the preemption bound',
  'The tests run one schedule per execution, and a barrier that lets a thread through early is only visible if another thread is delayed.',
  ['include/common/GBarrier.hpp', 'include/common/GSingletonT.hpp', 'src/common/GThreadGroup.cpp'], [('generation counter and condition variable', 'include/common/GBarrier.hpp'), ('double-checked creation', 'include/common/GSingletonT.hpp')],
  bounds='2-3 threads, 2 preemptions')
P('C08', 'Range checks, extrema and small vector helpers compute what they promise',
  'Range checks accept exactly the values inside the range (respecting open and closed ends), and enforcing a range leaves inside values alone and moves others to the violated boundary. '
  'Minimum and maximum enclose all data and are taken from it, mean, standard deviation, sums, regression lines and ratios follow their definitions, and element-wise operations affect every element. '
  'Erasing by predicate or flag removes exactly the selected items and keeps the others in order.',
  ['inputs'], 'all finite numbers (all machine integers), vectors of up to 4 elements',
  'Tests evaluate a handful of numbers; boundary values, open ends and inverted ranges are combinations they do not reach.',
  ['include/common/GCommonMathHelperFunctionsT.hpp', 'src/common/GCommonMathHelperFunctions.cpp', 'include/common/GCommonHelperFunctionsT.hpp', 'include/common/GCommonMathHelperFunctions.hpp'], [('template helpers', 'include/common/GCommonMathHelperFunctionsT.hpp')],
  bounds='vectors of up to 4 elements; mean over 16-bit integers (exact arithmetic)')
P('C05', 'Pointer and value containers: element-wise semantics and deep copies',
  'Inserting, removing, resizing, finding and exchanging tails on the vector classes for values and smart pointers does exactly what the same operation on a plain sequence does, and rejected requests change nothing. '
  'Copies are deep: no two containers, and no two entries of a container filled by cloning, share an item, and changes to a copy never reach its source. '
  'Typed views and type-filtered iteration visit exactly the items of the requested type in order, and empty pointers are never stored.',
  ['inputs', 'histories'], 'all item values, all positions and amounts, all operations within the size bounds',
  'Tests check single calls with fixed amounts; amounts of zero, the last position, cloning modes and empty containers are rarely combined.',
  ['include/common/GPtrVectorT.hpp', 'include/common/GPODVectorT.hpp', 'include/common/GCommonHelperFunctionsT.hpp'], [('std::vector of shared_ptr with clone() on copy', 'include/common/GPtrVectorT.hpp'), ('copyCloneableSmartPointer and relatives', 'include/common/GCommonHelperFunctionsT.hpp')],
  bounds='containers of up to 3 elements, amounts up to 5, one operation after an arbitrary fill')
P('C06', 'Formula parser evaluates formulas to their mathematical value',
  'A formula made of numbers, constants, placeholders, operators, brackets and functions evaluates to the value its usual mathematical reading has, with the usual precedence and associativity. '
  'Divisions by zero and arguments outside of the domain of a function raise an error instead of yielding a number. '
  'Text that is not a complete formula is rejected, and placeholders are substituted consistently wherever they occur.',
  ['inputs'], 'all finite values of the constants in the formula, all functions, all pairs (triples) of operators',
  'Tests compare a few formulas at a few numbers; domain borders and operator combinations are not covered.',
  ['include/common/GFormulaParserT.hpp', 'src/common/GFormulaParserT.cpp'], [('boost::spirit grammar, byte code compiler and stack machine', 'include/common/GFormulaParserT.hpp')],
  bounds='formulas with up to 3 operators, nesting depth up to 3; libm functions are uninterpreted (the parser must call the right one with the right argument)')
P('G01', 'Bounded parameters never expose a value outside of their boundaries',
  'Whatever internal value mutation or recombination leaves in a bounded floating point or integer parameter or collection, the externally visible value lies inside of the boundaries; values inside are passed through unchanged and values outside are mirrored at the boundaries. '
  'Assigning a value outside of the boundaries, or boundaries that do not contain the current value, is rejected and changes nothing. '
  'Changing the boundaries never changes the externally visible value.',
  ['inputs'], 'all finite normal internal values (all 32 bit integers), a fixed set of boundaries including non-representable and extreme ones',
  'The tests probe random values in small ranges; the rounding errors and overflows that push a value out of its range need particular magnitudes.',
  ['include/geneva/GConstrainedFPT.hpp', 'include/geneva/GConstrainedFPNumCollectionT.hpp', 'include/geneva/GConstrainedIntT.hpp', 'include/geneva/GConstrainedNumT.hpp', 'include/geneva/GConstrainedNumCollectionT.hpp'],
  [('transfer functions', 'include/geneva/GConstrainedFPT.hpp'), ('integer transfer function', 'include/geneva/GConstrainedIntT.hpp'), ('boundary checks', 'include/geneva/GConstrainedNumT.hpp')],
  bounds='7 boundary pairs (quick: 2 for arbitrary doubles), mirroring checked exactly for multiples of 1/8 of up to 12 bits', note='Subnormal internal values are refused by the code and not claimed.')
P('K01', 'Work items report exactly what happened when they were processed',
  'Processing runs pre-processing, processing and post-processing once each and in this order (unless vetoed or an earlier step failed); success yields the registered results and the status "processed", while any exception or user-flagged error reaches the caller, is recorded with its description and leaves no result behind. '
  'Only items due for processing are processed, only the documented status changes are accepted, and leaving a status discards results and error texts belonging to it. '
  'Copies and assignments carry the complete state and share no processors with their source.',
  ['inputs', 'faults', 'histories'], 'all combinations of failures in the three steps, all result values, all sequences of three status requests',
  'The tests process items that succeed; combinations of flagged errors, exceptions, vetoes and repeated processing are not exercised.',
  ['include/courtier/GProcessingContainerT.hpp'], [('process() with its exception handlers and the status machine', 'include/courtier/GProcessingContainerT.hpp')],
  bounds='items with two results; sequences of three operations over all statuses; one processing step with every combination of seven behaviours per step')
P('K02', 'Command containers transport command and payload unchanged',
  'A command container holds exactly the command and payload it was given or moved from, also after having been serialized and restored elsewhere, and moving or resetting leaves nothing behind. '
  'Processing the container processes the payload in place, passes on its errors and is refused without a payload.',
  ['inputs', 'histories'], 'all commands but one, all ways of filling the container, all outcomes of the payload',
  'Tests only use the container through whole client/server runs with payloads that succeed.',
  ['include/courtier/GCommandContainerT.hpp'], [('command plus shared_ptr', 'include/courtier/GCommandContainerT.hpp')],
  bounds='one container operation followed by processing and reset', note='the conversion to and from text is done by Boost.Serialization and is outside of the encoded code')
P('K03', 'The broker hands out each work item once and returns it to its producer',
  'Items submitted through a buffer port are handed to consumers exactly once and in order, all ports holding items are served in turn, and processed items return exactly once, unmodified and in order to the port they came from, also with concurrent producers and consumers. '
  'Ports always carry unique ids, ports of disconnected producers are removed at the next enrolment and items belonging to them are refused with a dedicated exception. '
  'Consumers are started once, enrolled only once, shut down once, and full return is only promised if all of them are capable of it.',
  ['histories', 'schedules', 'inputs'], 'all sequences of five operations on up to three ports, all start values of the port id, all interleavings with one preemption',
  'The tests run a broker with a single producer; wrap-around of ids, removal of ports, and fairness are never reached.',
  ['include/courtier/GBrokerT.hpp', 'include/courtier/GBufferPortT.hpp'], [('port maps, get position and id assignment', 'include/courtier/GBrokerT.hpp'), ('raw and processed queues', 'include/courtier/GBufferPortT.hpp')],
  bounds='up to 3 ports, 5 operations in sequence; 2 producers and 2 consumers with 1 preemption in addition to all blocking switches; up to 3 consumers')
P('K04', 'Executors process what is due and put results where they belong',
  'workOn() submits exactly the items due for processing, stores each returned item in the position it was submitted from, and reports completeness, errors and numbers of returned, missing, erroneous and old items truthfully, in serial, multi-threaded and brokered execution and in any order of return; it also terminates if nothing is due. '
  'Duplicates and items of earlier iterations never replace current ones; the latter are handed out sorted by position and without duplicates. '
  'A minimum percentage of returns, resubmission of missing items and timeouts act as documented, and items in wrong states, impossible percentages, decreasing iteration counters and concurrent calls are refused; copies keep all settings.',
  ['inputs', 'histories', 'schedules', 'faults'], 'all combinations of item states and outcomes, all return orders, lost, late and duplicate items, all percentages from 1 to 100',
  'The tests use items that succeed and consumers that return everything; late, lost and duplicate items and errors in release builds are not sampled.',
  ['include/courtier/GExecutorT.hpp'], [('workOn() with submission, waiting and accounting', 'include/courtier/GExecutorT.hpp')],
  bounds='2-3 items, 2 iterations, 2 worker threads with 1 preemption; boost::asio::io_service is replaced by a queue model; debug and release configurations', note='boost::asio io_service is modelled')
P('A01', 'Evolutionary algorithms select exactly the parents their mode promises',
  'MUPLUSNU selects the best of parents and children, MUCOMMANU the best children only, MUNU1PRETAIN keeps the best parent unless a child is better, and the Pareto modes select non-dominated individuals first; parents are sorted from best to worst, ties included, for minimization as for maximization. '
  'Repairing a population after lost, late or additional individuals keeps only processed individuals, restores the sizes promised, marks parents and children correctly and refuses populations that are too small. '
  'Recombination copies values of parents into all children only, and growth adds children up to the limit without losing any.',
  ['inputs', 'faults'], 'all orderings of the fitness values including ties, all modes, all combinations of returned, lost and late individuals',
  'The tests check that an optimization converges; a wrong selection, a lost best individual or a dominated parent still converges on simple functions.',
  ['src/geneva/G_OptimizationAlgorithm_EvolutionaryAlgorithm.cpp', 'src/geneva/G_OptimizationAlgorithm_ParChild.cpp'],
  [('selection functions and Pareto dominance', 'src/geneva/G_OptimizationAlgorithm_EvolutionaryAlgorithm.cpp'), ('recombination and growth', 'src/geneva/G_OptimizationAlgorithm_ParChild.cpp')],
  bounds='3-4 individuals, 1-2 parents, up to 2 criteria; fitness values are integers of 5 bits (Pareto: 3 bits), which covers all orderings and ties', note='In comma Pareto mode former parents may be re-elected if there are too few non-dominated children (documented in the code); not claimed.')
P('A02', 'Optimization reports the best solution ever found and runs until told to stop',
  'optimize() iterates, counted from the given offset, until a halt criterion triggers and not an iteration longer; set-up and clean-up happen exactly once. '
  'The best known fitness and individual are the best of all evaluations of the run, the best individual of an iteration is the best of that iteration, and both carry the results of their own evaluation. '
  'Stalls are counted and acted upon as configured, and individuals whose evaluation fails never become parents or best solutions.',
  ['inputs', 'histories', 'faults'], 'all sequences of fitness values, all halt criteria, failures of any evaluation',
  'Tests look at runs on smooth functions where the best solution is usually the last; a lost best solution or an off-by-one halt is not noticed.',
  ['src/geneva/G_OptimizationAlgorithm_Base.cpp', 'src/geneva/G_OptimizationAlgorithm_EvolutionaryAlgorithm.cpp', 'src/geneva/G_OptimizationAlgorithm_ParChild.cpp'],
  [('optimize(), updateGlobalBestsPQ(), progress()', 'src/geneva/G_OptimizationAlgorithm_Base.cpp'), ('cycleLogic_()', 'src/geneva/G_OptimizationAlgorithm_ParChild.cpp')],
  bounds='whole runs of up to 3 iterations with 2-3 individuals; each evaluation yields an arbitrary 3-bit integer (all orderings and ties)', note='Individuals are processed by the serial executor; the executors are covered by K04.')
P('A07', 'Halt criteria trigger exactly when their condition is met',
  'A run halts at once upon a signal or a modification of the termination file, and otherwise if and only if the minimum number of iterations has been reached and one of the enabled criteria is met: maximum iterations, stalls or time, the quality threshold, or a user-defined criterion. '
  'Criteria that are switched off never stop a run. '
  'Contradictory iteration limits are rejected and change nothing.',
  ['inputs'], 'all values of counters, limits, times and fitness',
  'Tests run to the maximum number of iterations; all other criteria and combinations are hardly touched.',
  ['src/geneva/G_OptimizationAlgorithm_Base.cpp'], [('halt() and its helpers', 'src/geneva/G_OptimizationAlgorithm_Base.cpp')],
  bounds='one decision, all 32 bit counters, 8-bit integers as fitness, times of up to 2^20 ms', note='the signal handler itself is not encoded')
P('A08', 'Checkpoints are written when due and are never lost',
  'Checkpoints are written in the requested intervals or upon improvement, under a name made of algorithm, iteration, fitness and base name, and only checkpoints of the same algorithm are loaded. '
  'At every point after the first successful checkpoint a complete and loadable one exists, also if former files are to be removed, a name occurs again or the disk is full. '
  'A checkpoint that could not be written completely is reported as an error.',
  ['histories', 'faults', 'inputs'], 'all sequences of four iterations with improvements and full disks, all policies',
  'Tests do not write checkpoints; failing writes and repeated names are not reached by ordinary use.',
  ['src/geneva/G_OptimizationAlgorithm_Base.cpp', 'include/common/GCommonInterfaceT.hpp'], [('checkpoint(), saveCheckpoint(), loadCheckpoint()', 'src/geneva/G_OptimizationAlgorithm_Base.cpp'), ('toFile()/fromFile()', 'include/common/GCommonInterfaceT.hpp')],
  bounds='4 iterations, 3 intervals; archives are replaced by a one-line text format, files by a file system model with disk limit', note='Boost.Serialization archives are outside of the encoded code.')
P('A03', 'Simulated annealing accepts children with the probability its schedule dictates',
  'The best children compete with the parents in order: a child at least as good always replaces its parent, a worse one if and only if a uniform random number lies below exp(-loss/temperature). '
  'The temperature starts with the value set by the user and is multiplied by the degradation strength once per iteration. '
  'The best individual ever evaluated remains available even though parents may get worse, parents are sorted, and lost or late individuals are dealt with such that sizes and markings remain intact.',
  ['inputs', 'faults'], 'all fitness values and random draws, all combinations of returned, lost and late individuals',
  'Random acceptance hides a wrong probability, a wrong start temperature or a lost best solution from tests that only look at the final quality.',
  ['src/geneva/G_OptimizationAlgorithm_SimulatedAnnealing.cpp', 'src/geneva/G_OptimizationAlgorithm_ParChild.cpp'],
  [('sortSAMode(), saProb(), fixAfterJobSubmission()', 'src/geneva/G_OptimizationAlgorithm_SimulatedAnnealing.cpp')],
  bounds='2-4 individuals, 1-2 parents, 2-3 bit integers as fitness, two temperatures, arbitrary doubles as random draws; runs of 2 iterations; exp is uninterpreted with axioms (the code must apply it to the right argument)')
P('A05', 'Gradient descent follows the difference quotients from each starting point',
  'The population consists of the starting points and, for each, one child per active parameter which differs from it by the finite step (scaled with the size of the parameter range); all are evaluated exactly once per iteration. '
  'Each starting point then moves by step size times difference quotient against the gradient of the quantity to be minimized, inactive parameters are never touched, and a failed evaluation ends the run rather than entering a gradient. '
  'The best individual of all evaluations remains available with the parameters it was evaluated with, and step sizes outside of their range are refused.',
  ['inputs', 'faults', 'histories'], 'all fitness values, start positions and failing evaluations',
  'Tests check that the fitness improves, which a wrong sign for one direction, a wrong scale or a gradient of the wrong child may survive.',
  ['src/geneva/G_OptimizationAlgorithm_GradientDescent.cpp', 'src/geneva/GParameterSet.cpp'],
  [('adjustPopulation_(), updateChildParameters(), updateParentIndividuals()', 'src/geneva/G_OptimizationAlgorithm_GradientDescent.cpp'), ('assignValueVector(), streamline()', 'src/geneva/GParameterSet.cpp')],
  bounds='1-3 starting points, 1-2 active and 1 inactive parameter, 1-2 (thorough: 3) iterations, 3-6 bit integers as positions and 4 bit integers as fitness, step sizes from a small set of dyadic numbers', note='serial executor; best known fitness values only consider starting points')
P('A06', 'Parameter scans visit exactly the requested points and report the best',
  'A grid scan evaluates each combination of the requested values of all parameters exactly once and then stops, a random scan evaluates the requested number of points inside of the boundaries, and a simple scan evaluates exactly the requested number of random individuals. '
  'Parameters without a specification keep their values, and the best point is reported together with its parameters. '
  'Specifications and configurations are understood as documented; unknown or impossible ones are refused.',
  ['inputs', 'histories'], 'all combinations of parameter types, numbers of steps, boundaries, population sizes and fitness values within the bounds',
  'Tests look at one scan of one size; points missed or visited twice at the end of a range, types other than double, or repeated scans do not show.',
  ['src/geneva/G_OptimizationAlgorithm_ParameterScan.cpp', 'include/geneva/G_OptimizationAlgorithm_ParameterScan.hpp', 'src/geneva/GParameterPropertyParser.cpp'],
  [('cycleLogic_(), updateSelectedParameters(), randomShuffle()', 'src/geneva/G_OptimizationAlgorithm_ParameterScan.cpp'), ('baseScanParT, fillWithData()', 'include/geneva/G_OptimizationAlgorithm_ParameterScan.hpp')],
  bounds='up to 3 parameters of types double, int32 and bool with up to 4 steps, populations of 1-4, small symbolic boundaries; one and two scans in a row', note='malformed specifications of single parameters end the application and are not covered')
P('A04', 'Swarms move individuals towards the bests found so far and keep their structure',
  'Each individual moves by its velocity plus the weighted and randomly scaled distances to its personal best, its neighborhood best and, if there are several neighborhoods, the global best; it is repelled instead once the requested number of stalls is exceeded, and no velocity exceeds its range. '
  'Personal, neighborhood and global bests are the best solutions evaluated so far by the individual, its neighborhood and the entire swarm, and the best individual remains available. '
  'The number and size of neighborhoods are always restored, also if individuals are lost, fail or return late, or if too few or too many were supplied.',
  ['inputs', 'faults', 'histories'], 'all fitness values, positions and velocities within the bounds, all placements of up to two lost, late or failing individuals',
  'Swarms still improve with wrong bests or velocities, so tests do not notice; lost and late individuals do not occur in tests at all.',
  ['src/geneva/G_OptimizationAlgorithm_SwarmAlgorithm.cpp', 'src/geneva/G_OptimizationAlgorithm_SwarmAlgorithm_PersonalityTraits.cpp'],
  [('updatePositions(), findBests(), adjustNeighborhoods(), adjustPopulation_()', 'src/geneva/G_OptimizationAlgorithm_SwarmAlgorithm.cpp'), ('registerPersonalBest()', 'src/geneva/G_OptimizationAlgorithm_SwarmAlgorithm_PersonalityTraits.cpp')],
  bounds='1-2 neighborhoods of 2-3 individuals (layout: up to 3 x 3), 1-2 parameters, 2-4 iterations, 1-3 bit integers as fitness, positions and velocities, random factors from {0, 1/4, 1/2, 3/4}', note='velocities belong to positions in the population, not to individuals, which are sorted in each iteration')
P('C10', 'Configuration files set exactly the registered options and are reproduced',
  'Parsing a configuration file hands each registered option to its call-back or variable exactly once, in the order of registration, with the value from the file, or with its default value if the file does not mention it; options of all kinds (single values, pairs, lists, arrays) behave alike, and unknown entries are ignored. '
  'Written files contain all requested options and comments and, read again, reproduce the same values, also after a missing file was created with default values. '
  'Unreadable or malformed files are reported and leave all options unchanged, existing files are never overwritten, and incomplete writes are reported.',
  ['inputs', 'faults'], 'all subsets of options present in a file, all digits of their values, all kinds of options, and all truncations of a file',
  'Tests read the one configuration that ships with each example; missing options, lists of other sizes than the default, and files created automatically are rarely exercised.',
  ['include/common/GParserBuilder.hpp', 'src/common/GParserBuilder.cpp'],
  [('load_from(), save_to(), registerFileParameter(), resetFileParameterDefaults()', 'include/common/GParserBuilder.hpp'), ('parseConfigFile(), writeConfigFile()', 'src/common/GParserBuilder.cpp')],
  bounds='up to 11 options of types int, double, bool and string, values of one to three symbolic digits, lists of up to 3 and arrays of 2 items, an in-memory file system', note='values of a wrong type are replaced by defaults (Boost.PropertyTree) and not covered; the command line (Boost.Program_options, not part of the sources) is not covered')
P('G09', 'The fitness of an individual belongs to its current parameters and constraints',
  'An evaluated individual reports, for each criterion, the raw value of the fitness function and the transformed value required by the evaluation policy, identically through all ways of access; failing evaluations are recorded and reported, and individuals violating constraints are not evaluated (unless simple evaluation is requested) and are never better than valid ones. '
  'Whenever parameters of an individual may have changed (assignment, initialization, arithmetics, swapping, each attempt of an adaption, cross-over), it needs to be evaluated again; operations that do not change them, copies and loaded individuals keep their fitness. '
  'Adaption is repeated until something changed and the result is valid, within the limits set; cross-over exchanges the tails of the parents at one point per parameter type and works for all sizes; parameters are only taken over from evaluated individuals, together with their fitness.',
  ['inputs', 'history'], 'all fitness values, validity levels, evaluation policies and optimization modes, all outcomes of the evaluation and of each adaption attempt, all cross-over positions, and each operation on an evaluated individual',
  'Tests evaluate valid individuals with one policy; failed evaluations, constraint violations in each policy, and repeated adaption attempts depend on rare combinations.',
  ['src/geneva/GParameterSet.cpp', 'include/geneva/GParameterSet.hpp', 'include/courtier/GProcessingContainerT.hpp', 'src/common/GCommonMathHelperFunctions.cpp'],
  [('process_(), setFitness_(), adapt(), crossOverWith(), cannibalize(), isGoodEnough()', 'src/geneva/GParameterSet.cpp'), ('process(), mark_as_due_for_processing()', 'include/courtier/GProcessingContainerT.hpp'), ('gsigmoid()', 'src/common/GCommonMathHelperFunctions.cpp')],
  bounds='up to 2 criteria (3 for combinations), up to 9 parameters of types double, int32 and bool, small integral fitness values (selected ones, including extremes, for sigmoidal fitness), up to 3 adaption attempts per limit')
P('G10', 'Constraints decide the validity of individuals exactly and survive copying',
  'A validity check accepts an individual exactly if its value lies between 0 and 1 (or below 1, if negative values are allowed); any other value, including those that are not numbers, leads to a validity level above 1; combined checks accept an individual exactly if all of them do, and otherwise combine the levels of the violated ones as requested, with extreme levels taking precedence. '
  'Copies, clones and assigned or loaded objects decide alike, and individuals keep their own copy of their constraint. Formula constraints evaluate the current parameter values, and undefined results make individuals invalid.',
  ['inputs'], 'all floating point values of a check (including infinities and NaN), all combinations of up to three checks, and all ways of copying them',
  'Tests only register single, always valid checks.',
  ['include/geneva/GMultiConstraintT.hpp', 'src/geneva/GParameterSetMultiConstraint.cpp', 'src/geneva/GParameterSet.cpp'],
  [('GPreEvaluationValidityCheckT::check(), isValid(); GCheckCombinerT::check_(), load_()', 'include/geneva/GMultiConstraintT.hpp'), ('GParameterSetFormulaConstraint::check_()', 'src/geneva/GParameterSetMultiConstraint.cpp'), ('registerConstraint(), parameterSetFulfillsConstraints()', 'src/geneva/GParameterSet.cpp')],
  bounds='up to 3 combined checks with small integral values or one check with any double; formulas of two parameters with 25 pairs of values', note='serialization of constraints is covered by G07')

P('G07', 'Copies, clones, loaded and serialized objects equal their original',
  'Copying, cloning, assigning, loading or serializing and restoring an adaptor, parameter, parameter collection, individual, constraint or set of personality traits carries over every serialized setting and value, also if the target held other objects before, and the result shares no state with its original. '
  'A comparison of two objects detects a difference in any of these values, and accepts identical objects. Comparisons of individuals disregard the progress of their evaluation.',
  ['inputs', 'histories'], 'all values of every serialized data item, for each item, and all ways of transferring it',
  'Tests compare objects whose values mostly equal the defaults of the target, so that data forgotten by a copy, a load or a serialization is not noticed.',
  ['include/geneva/GParameterT.hpp', 'include/geneva/GParameterBase.hpp', 'src/geneva/GParameterSet.cpp', 'include/geneva/GAdaptorT.hpp', 'src/geneva-individuals/GFunctionIndividual.cpp'],
  [('serialize(), load_(), clone_(), compare_() of every class', 'include/geneva/GParameterT.hpp'), ('GObject::load()/clone()', 'include/common/GCommonInterfaceT.hpp'), ('copyCloneableSmartPointerContainer()', 'include/common/GCommonHelperFunctionsT.hpp')],
  bounds='objects with up to three children; one serialized item changed at a time, its value symbolic', note='an in-memory archive replaces boost::serialization (text, XML and binary archives are not executed)')

P('K05', 'Algorithms, monitors and plots survive copying and check-points',
  'Copying, cloning, loading or saving and restoring an optimization algorithm carries over all settings a user can make, its population, the best individuals found so far, and the state of the search (iteration, stall counter, neighborhood bests, scan position); the same holds for optimization monitors, including the data they have recorded, and for plots. '
  'The result is equal to the original and shares no state with it, and comparisons notice each different setting.',
  ['inputs', 'histories'], 'all values of every serialized item of five optimization algorithms, nine monitors and twelve kinds of plots',
  'Tests serialize objects that mostly hold default values, and never algorithms in the middle of a run or monitors holding data.',
  ['src/geneva/G_OptimizationAlgorithm_Base.cpp', 'src/geneva/G_OptimizationAlgorithm_SwarmAlgorithm.cpp', 'src/geneva/G_OptimizationAlgorithm_ParameterScan.cpp', 'src/geneva/GPluggableOptimizationMonitors.cpp', 'src/common/GPlotDesigner.cpp'],
  [('copy constructor, load_(), compare_(), serialize() of algorithms', 'src/geneva/G_OptimizationAlgorithm_Base.cpp'), ('the same of monitors', 'src/geneva/GPluggableOptimizationMonitors.cpp'), ('the same of plots', 'include/common/GPlotDesigner.hpp')],
  bounds='populations of up to two individuals, one or two neighborhoods, scans of up to three parameters; one serialized item changed at a time, its value symbolic', note='an in-memory archive replaces boost::serialization; comparisons disregard the grid of a parameter scan and the progress of evaluations')

P('G04', 'Adaptors keep to their ranges and adapt exactly the values they should',
  'Adaption probabilities, sigmas and distances always stay within their allowed ranges, whatever random numbers are drawn, and settings outside of these ranges are refused without changing anything. '
  'An adaptor changes each value with its adaption probability (always or never, if so requested) by a random part of the given range (by at least one for integers, by inverting booleans), leaves other values alone and reports the number of changes. The adaptor itself is adapted exactly when its threshold or probability demands it, and a stall resets it to the reset values, which is reported.',
  ['inputs', 'histories'], 'all probabilities, boundaries and random draws', 'Tests draw random numbers and check statistics; they use plausible settings and never the boundaries.',
  ['include/geneva/GAdaptorT.hpp', 'include/geneva/GNumGaussAdaptorT.hpp', 'include/geneva/GNumBiGaussAdaptorT.hpp', 'include/geneva/GIntGaussAdaptorT.hpp', 'src/geneva/GBooleanAdaptor.cpp'],
  [('GAdaptorT::adapt(), adaptAdaption(), setAdProbRange(), updateOnStall()', 'include/geneva/GAdaptorT.hpp'), ('setSigmaRange(), setSigma(), customAdaptAdaption()', 'include/geneva/GNumGaussAdaptorT.hpp'), ('customAdaptions()', 'include/geneva/GFPGaussAdaptorT.hpp'), ('addAdaptor(), applyAdaptor()', 'include/geneva/GParameterBaseWithAdaptorsT.hpp')],
  bounds='finite values; vectors of up to 4 values; sequences of 3 adaptions; integer steps that fit the type; the exponential function is uninterpreted (positive, monotone)', note='random draws are unconstrained within the contract of the distributions; NaN settings and integer overflows (values near the limits of the type) are not covered')

P('G06', 'Bulk operations reach exactly the parameters they are meant for',
  'Counting, extracting (by position or name), listing boundaries and assigning values of one type covers exactly the parameters of that type with the requested activity, in a common order for all of these operations, and extraction changes nothing. '
  'Multiplication, addition, subtraction, initialization with a constant or with random values change exactly these parameters by the expected amount (mapped into their boundaries where they have them; random values stem from the right range; blocked parameters are not initialized) and mark the individual for evaluation.',
  ['inputs', 'configurations'], 'all values, parameter kinds and activity modes', 'Tests cover unconstrained floating point parameters and active individuals; boolean and integer vectors with an activity mode, and values left behind by adaptors, are never exercised.',
  ['include/geneva/GParameterSet.hpp', 'include/geneva/GParameterBase.hpp', 'include/geneva/GParameterTCollectionT.hpp', 'src/geneva/GConstrainedDoubleObject.cpp', 'src/geneva/GInt32Collection.cpp', 'src/geneva/GBooleanCollection.cpp'],
  [('streamline(), boundaries(), countParameters(), assignValueVector(), multiplyBy(), add(), randomInit()', 'include/geneva/GParameterSet.hpp'), ('dispatch by type and activity mode', 'include/geneva/GParameterBase.hpp'), ('the same operations of each parameter kind', 'src/geneva/GConstrainedDoubleObject.cpp')],
  bounds='each kind of parameter object in an individual of five objects, collections of two, one level of nesting; every activity mode, active and inactive parameters; integers of at most 1000', note='values of constrained parameters and random factors for them come from a table; the mapping itself is decided by G01; names are unique and float parameters do not exist in the library')

P('H02', 'Random numbers and seeds are handed out once',
  'Whatever the schedule of producers and consumers, every random number (and every seed) that was produced is delivered at most once, to one consumer, also when random number generators are copied, moved, assigned to or destroyed with unused numbers left, and a consumer always receives its next number. '
  'The factory starts its producers once, runs as many as were asked for, gives each its own seed, and its shutdown ends all of them.',
  ['histories', 'schedules'], 'all interleavings of producers and consumers', 'Tests look at the statistics of numbers drawn in one schedule; a number delivered twice or a surplus producer does not show.',
  ['src/hap/GRandomFactory.cpp', 'include/hap/GRandomFactory.hpp', 'include/hap/GRandomT.hpp'],
  [('getNewRandomContainer(), returnUsedPackage(), producer(), getSeed(), setNProducerThreads()', 'src/hap/GRandomFactory.cpp'), ('random_container', 'include/hap/GRandomFactory.hpp'), ('GRandomT: copies, moves, int_random()', 'include/hap/GRandomT.hpp')],
  bounds='up to two producers and two consumers, one or two preemptions and two time-outs; packages of two numbers, buffers of two packages, four operations', note='the raw generator and the seed sequence are replaced by counters; distributions are not part of this property')

P('C09', 'Comparisons report exactly the differences that exist',
  'For every pair of values, sequences, sets, smart pointers (empty or not) and library objects, a comparison succeeds for "equality" if and only if both sides are equal in type, length and every element, for "inequality" if and only if they are not, and for "similarity" if and only if all floating point values are equal or closer than the limit and everything else is equal. '
  'A token collects the outcomes of several comparisons and meets its expectation if and only if all of them did (equality, similarity) or at least one did (inequality).',
  ['inputs'], 'all pairs of values', 'Tests compare an object with its own copy and with one altered copy; unset states, infinities, empty pointers and containers of different length are not sampled.',
  ['include/common/GExpectationChecksT.hpp', 'src/common/GExpectationChecksT.cpp', 'src/geneva/GParameterBase.cpp'],
  [('compare(), compare_t(), IDENTITY', 'include/common/GExpectationChecksT.hpp'), ('GToken, compare(tribool)', 'src/common/GExpectationChecksT.cpp'), ('GParameterBase::compare_()', 'src/geneva/GParameterBase.cpp')],
  bounds='all double, float and 32-bit values; containers of up to two elements; smart pointers to parameter objects with symbolic value and name', note='NaN counts as different from and not similar to every value; comparison of complete individuals and algorithms is part of the copy properties')
P('C07', 'Texts of numbers, lists, durations and enumerations mean what they say',
  'Texts are split at their separators into fragments without surrounding blanks, empty fragments are left out, and fragments are converted to the requested types in their order. '
  'Lists of unsigned integers, of pairs and of floating point numbers as well as durations (h:m:s, m:s or s) yield exactly the written values, with blanks allowed between the items; any other text (including numbers that do not fit) is refused. '
  'Values of enumerations written to a stream or converted to text are read back unchanged.',
  ['inputs'], 'all texts within the bounds, all enumerations', 'Tests use a few well-formed texts; blanks, empty fragments, wrong separators and numbers at the limit of their type never occur.',
  ['src/common/GCommonHelperFunctions.cpp', 'include/common/GCommonHelperFunctionsT.hpp', 'src/common/GCommonEnums.cpp', 'src/geneva/GOptimizationEnums.cpp', 'src/courtier/GCourtierEnums.cpp'],
  [('stringToUIntVec(), stringToUIntTupleVec(), stringToDoubleVec(), duration_from_string(), splitString()', 'src/common/GCommonHelperFunctions.cpp'), ('splitStringT()', 'include/common/GCommonHelperFunctionsT.hpp')],
  bounds='up to 3 arbitrary ASCII characters, 5-9 characters from the relevant alphabet, the last two digits of 10 digit numbers; durations of up to 4 fields with 6 values each; 25 enumerations with 11 values each')
