# how each property is decided: what is executed symbolically, against which oracle (used by gen.py for DESIGN.md)
M = {
'C01': 'GBoundedBufferT itself (a template) under sequences of all 12 operations against a deque as reference, and under every schedule of 2-3 threads; lost wake-ups show as deadlocks, lost or repeated items as failed assertions.',
'C02': 'GThreadPool/GThreadGroup with an io_service model; every schedule of submitters, workers, resizes and destruction; oracle: run counters per task, values and exceptions in futures, counters after wait().',
'C03': 'GFixedSizePriorityQueueT and the individual queue with symbolic evaluations; oracle: the sorted multiset of everything added, cut to the capacity.',
'C04': 'GBarrier, GSingletonT and GThreadGroup under every schedule of 2-3 threads; oracle: counters before and after the synchronisation point.',
'C05': 'GStdVectorInterfaceT, GPtrVectorT and relatives: each operation after an arbitrary fill, compared with a std::vector reference, plus identity of pointers (clone or not).',
'C06': 'GFormulaParserT (boost::spirit and the byte code interpreter compiled to IR) over formulas with symbolic constants; oracle: the same expression written in C++; libm is uninterpreted.',
'C07': 'texts of symbolic characters run through the real boost::spirit and tokenizer code; oracle: hand-written recursive descent parsers over the same characters, and exact round trips for enumerations.',
'C08': 'helper functions of GCommonMathHelperFunctions*; oracle: their definition in first-order form (exists/for all elements).',
'C09': 'GExpectationChecksT and compare_t for all value classes; oracle: the mathematical relation for each of the three expectations, including NaN, infinities and containers of different length.',
'C10': 'GParserBuilder with the real property tree code on an in-memory file system; options with symbolic values are written, read, rewritten and read again; oracle: the values themselves. Texts are symbolic digit by digit.',
'A01': 'the selection functions of GEvolutionaryAlgorithm on symbolic fitness vectors, for each sorting mode; oracle: rank and dominance computed in the harness, multiset of survivors.',
'A02': 'whole runs of G_OptimizationAlgorithm_Base descendants with an executor that evaluates to symbolic integers; oracle: the best value handed out so far and the halt request counters.',
'A03': 'GSimulatedAnnealing: selection with arbitrary random draws, exp uninterpreted with axioms; oracle: Metropolis criterion and temperature schedule.',
'A04': 'GSwarmAlgorithm: layout, velocity and position updates with symbolic positions and random factors; oracle: the update formula over the bests seen by the harness, structure of the population after losses and late returns.',
'A05': 'GGradientDescent: positions after each iteration; oracle: difference quotient times step size, computed independently, for each starting point; bests, losses, errors.',
'A06': 'GParameterScan and the ScanPar classes; oracle: the requested grid in lexicographic order (or a contract for random scans), numbers of evaluations, bests.',
'A07': 'halt() with arbitrary settings and counters; oracle: the disjunction of the documented criteria.',
'A08': 'checkpoint() within runs on the file system model, including full disks at arbitrary points; oracle: the set of files, their contents and the exceptions seen.',
'G01': 'GConstrained*Object/Collection transfer functions for arbitrary internal values; oracle: closed/half-open ranges, exact mirroring on multiples of 1/8.',
'G04': 'all adaptors with symbolic settings and unconstrained random draws (uninterpreted exp); oracle: ranges of sigma and probabilities, unadapted values untouched, adaption counters.',
'G06': 'bulk operations of GParameterSet and parameter objects/collections; oracle: vectors of values per type and activity mode built by the harness.',
'G07': 'a token archive (`harness/ar.hpp`) runs the real `serialize()` functions of each class; one serialized item at a time becomes symbolic and must survive copying, cloning, loading (over fresh and used objects) and be noticed by comparisons; observable settings are checked through getters too.',
'G09': 'GParameterSet processing with symbolic fitness and validity; oracle: policies, dirty flag after each mutating operation, best-effort adaption loop, cross-over at one point.',
'G10': 'GCheckCombinerT, formula and sum constraints; oracle: validity and level formulas over arbitrary doubles.',
'H02': 'GRandomFactory, GRandomProxies and the seed manager under every schedule of producers and consumers; draws are tagged, oracle: each tag is delivered at most once, buffers stay within capacity, shutdown ends.',
'K01': 'GProcessingContainerT with every combination of behaviours of pre-/processing/post-steps; oracle: status machine and stored results.',
'K02': 'GCommandContainerT with symbolic commands and payload statuses.',
'K03': 'GBrokerT and GBufferPortT, sequences and schedules of producers and consumers; oracle: each item retrieved once, and by its own port.',
'K04': 'executors (serial, multi-threaded, broker) with items returning, failing or getting lost in any order; oracle: positions, statuses, numbers of old and current items, time-outs.',
'K05': 'like G07 for algorithms, personality traits, monitors, executors, plot designers.',
}
SEEDS = [('b01', 'C01'), ('b02', 'C03'), ('b03', 'K03'), ('b04', 'C02'), ('b05', 'C06'), ('b06', 'C08'), ('b07', 'G01'), ('b08', 'C05'), ('b09', 'K04'), ('b10', 'A01'), ('b11', 'A02'), ('b12', 'A03'), ('b13', 'A07'), ('b14', 'A08'), ('b15', 'A04'), ('b16', 'A05'), ('b19', 'G10'), ('b21', 'G07'), ('b22', 'K05'), ('b25', 'H02'), ('b26', 'C09')]
