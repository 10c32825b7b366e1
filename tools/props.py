"""The properties (source of properties.jsonl and MANIFEST.json; run tools/gen.py after editing)."""
P = []


def prop(id, title, statement, over, qtext, why, files, mech, note=None, state=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech]), _note=note))
    if state:
        P[-1]["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]


prop("C01", "Permutation crossovers always produce permutations",
     "For any two parents that are permutations of the same n genes, every permutation crossover (order-1, order-2, position, cycle, edge, partially mapped) terminates and both children are permutations of those genes. "
     "Order-1, order-2, position and partially mapped children keep the first parent's genes at the selected positions; the two order crossovers and position fill the rest in the second parent's relative order, and partially mapped keeps every non-conflicting gene of the second parent in place. "
     "A cycle crossover child takes every position's gene from one of the two parents, complementary to its sibling, and an edge crossover child starts with its first parent's first gene.",
     ["inputs"], "all pairs of permutations of every length n >= 2, all selected ranges [first, last] and index sets, all random choices of the operators",
     "the unit tests check one hand-picked pair of parents of length 10 per crossover and that a few random runs yield permutations; the claim quantifies over all n!^2 pairs and all cut points",
     ["src/crossover/crossover_impl.hpp", "src/crossover/permutation.cpp", "src/crossover/neighbour_list.hpp"],
     [("crossover kernels", "src/crossover/crossover_impl.hpp"), ("operators choosing ranges", "src/crossover/permutation.cpp")])

prop("C02", "Point and uniform crossovers only exchange genes position by position",
     "For parents of equal length n, every n-point and uniform crossover of the binary and integer encodings returns two children of length n such that at every position the two children hold exactly the two parents' genes of that position (either kept or exchanged). "
     "For the n-point crossovers the exchange state changes exactly at the chosen cut points, so the source parent changes at most as many times as there are cut points; the parents are not modified.",
     ["inputs"], "all pairs of equal-length chromosomes, all cut point choices within [0, n], all numbers of crossover points >= 1 and swap probabilities in [0, 1]",
     "the tests fix one pair of constant parents and one set of cut points per function; the claim is over all lengths, cut points (also duplicated, unordered, 0 and n) and gene values",
     ["src/crossover/crossover_impl.hpp", "src/crossover/binary.cpp", "src/crossover/integer.cpp"],
     [("nPointCrossoverImpl, singlePointCrossoverImpl, twoPointCrossoverImpl", "src/crossover/crossover_impl.hpp"), ("SinglePoint, TwoPoint, NPoint, Uniform operators", "src/crossover/binary.cpp, src/crossover/integer.cpp")])
prop("C03", "Real crossovers produce genes inside the bounds, related to the parents' genes",
     "For parents of equal length whose genes lie within finite bounds of moderate magnitude, every real-encoded crossover (arithmetic, BLX-alpha, simulated binary, Wright) returns two children of the same length whose genes are all numbers within their own lower and upper bounds, and leaves the parents unmodified. "
     "Up to rounding, arithmetic children are complementary weighted averages of the parents with one weight for all genes, BLX-alpha genes lie in the parents' interval extended by alpha times its width, and Wright children lie from the better parent away from the worse one by at most their distance (all after clamping to the bounds). "
     "Simulated binary keeps genes in which the parents agree, and its two children lie on opposite sides of the parents' middle.",
     ["inputs"], "all parent gene values within the bounds, all finite bounds up to 2^500 with lower <= upper (also degenerate), all operator parameters and random draws",
     "the tests run the operators on a few random parents in [-1, 1]-like bounds; rounding, overflow and NaN at particular magnitudes, degenerate intervals and rare draws are not sampled",
     ["src/crossover/real.cpp", "src/crossover/real.hpp"],
     [("Arithmetic, BLXa, SimulatedBinary, Wright ::crossover", "src/crossover/real.cpp"), ("randomReal", "src/utility/rng.hpp")])

prop("C04", "Permutation mutations rearrange the genes and never lose one",
     "For every permutation, every permutation mutation (inversion, swap of two or three positions, shuffle, shift) keeps the length and the set of genes, so permutations stay permutations. "
     "It either changes nothing or does what it is named for: one segment is reversed or shuffled, two or three different positions are exchanged, or a block of genes moves; reversed and shuffled segments have at most max(2, range_max * n) genes. "
     "With mutation rate 0, or with fewer than 2 (for the three-way swap 3) genes, the chromosome is unchanged.",
     ["inputs"], "all chromosomes of every length (also 0 and 1), all mutation rates and relative ranges in [0, 1], all random choices",
     "the unit tests apply each operator a few times to one permutation of 10 genes; boundary ranges (range_max 0 and 1, lengths 0 to 3) and rare draws are not exercised",
     ["src/mutation/permutation.cpp", "src/mutation/permutation.hpp"],
     [("Inversion, Swap2, Swap3, Shuffle, Shift ::mutate", "src/mutation/permutation.cpp")])

prop("C05", "Other mutations keep genes valid and touch only sampled positions",
     "Every mutation operator of the binary (flip), integer (uniform) and real (uniform, non-uniform, Gauss, polynomial, boundary) encodings keeps the chromosome's length and every gene valid: binary genes stay 0 or 1, and integer and real genes stay numbers within their bounds. "
     "It changes only genes at distinct randomly sampled positions, none at all with mutation rate 0; every sampled binary gene is flipped, every sampled integer gene that has another allele changes, and boundary mutation sets sampled genes to one of their bounds.",
     ["inputs"], "all chromosomes with genes within their bounds, all integer bounds (also equal or as wide as the type), all real bounds up to 2^500 in magnitude, all mutation rates, operator parameters and random draws",
     "the tests run each operator a few times with bounds like [-1, 1]; degenerate or very wide bounds, rounding at the edges, NaN or overflow for unusual parameters and non-termination are not sampled",
     ["src/mutation/binary.cpp", "src/mutation/integer.cpp", "src/mutation/real.cpp"],
     [("Flip::mutate", "src/mutation/binary.cpp"), ("integer Uniform::mutate", "src/mutation/integer.cpp"), ("Uniform, NonUniform, Gauss, Polynomial, Boundary ::mutate", "src/mutation/real.cpp")])

prop("C06", "Random draws stay in their documented ranges; sampled sets are distinct",
     "Uniform integers lie in [lbound, ubound] and uniform reals in [0, 1) or [lbound, ubound], binomial draws are between 0 and n (0 for rate 0, n for rate 1), and normal draws are numbers (equal to the mean for deviation 0). "
     "Sampling without replacement returns exactly the requested number of distinct values of [lbound, ubound), for every range and count; sampling from a cumulative distribution returns the index of the first entry that is not below the draw, always a valid index. "
     "Every point of the quasi-random sequence has the generator's dimension and lies in the unit cube [0, 1)^dim, and reset with a seed restarts the sequence.",
     ["inputs", "histories"], "all ranges, counts, rates and seeds for which the functions' documented preconditions hold (finite interval width, less than 2^50 trials or values), all outputs of the underlying generator, all positions of the quasi-random sequence",
     "the tests draw a few values from one or two ranges; boundary draws, ranges above 65536, counts around the 60% strategy switch, tiny and large binomial rates and rounding at interval ends are not sampled",
     ["src/utility/rng.hpp", "src/utility/qrng.hpp", "src/utility/algorithm.hpp"],
     [("randomInt, randomReal, randomNormal, randomPoisson, randomBinomial*, randomIndex, sampleUnique, sampleUniqueSet, sampleCdf", "src/utility/rng.hpp"), ("QuasiRandom", "src/utility/qrng.hpp"), ("detail::lower_bound", "src/utility/algorithm.hpp")])

prop("C07", "Tolerant float comparisons and Pareto comparisons form a consistent order",
     "For all numbers (also infinities) and all tolerances, exactly one of floatIsLess, floatIsGreater and floatIsEqual holds, less means really smaller by more than the larger of the absolute and the scaled relative tolerance (exact comparison when an operand is infinite), and floatCompare, floatIsLessEq, floatIsGreaterEq and floatVecIsEqual agree with them. "
     "paretoCompareLess(lhs, rhs) holds exactly when no objective of lhs is greater and at least one is less, and paretoCompare returns -1, 1 or 0 in agreement with it in both directions; no vector dominates itself and no two dominate each other. "
     "ScopedTolerances sets the tolerances and restores the previous ones when it ends.",
     ["inputs"], "all pairs of non-NaN doubles, all vectors of equal length, all absolute tolerances >= 0 and relative tolerances in [0, 1]",
     "the tests compare a dozen hand-picked numbers and vectors; values whose difference is within rounding of the tolerance, mixed signs, infinities and overflowing differences are not sampled, and the two Pareto functions are never compared with each other",
     ["src/utility/math.hpp", "src/utility/math.cpp"],
     [("floatCompare, floatIsEqual, floatIsLess, floatIsGreater, floatIsLessEq, floatIsGreaterEq, floatVecIsEqual, ScopedTolerances", "src/utility/math.hpp"), ("paretoCompareLess, paretoCompare", "src/utility/math.cpp")])

prop("C08", "Pareto fronts contain exactly the non-dominated solutions, each once",
     "For any fitness matrix or population whose values are equal or differ by more than the comparison tolerance, every front function (default, sort-based, BEST, Kung) returns exactly the solutions that no other one dominates, each index once and duplicates kept; with a single objective it returns the solutions equal to the best value. "
     "mergeParetoSets of two mutually non-dominated sets returns exactly the elements of either set that no element of the other dominates, for every interleaving of its parallel loop. "
     "The nadir points are the elementwise minima over the front or the given points, and toFitnessMatrix and toFitnessVector hold the candidates' fitness values in order.",
     ["inputs", "schedules"], "all matrices with any number of rows and columns without NaN (values pairwise equal or separated by more than the tolerance for more than one objective), all pairs of mutually non-dominated sets, all interleavings of the iterations of the parallel merge loop",
     "the tests use a few hand-written matrices of about ten rows; in-place index shuffling with particular dominance patterns, duplicates, ties in leading objectives and concurrent state updates in the merge are not sampled",
     ["src/core/population.cpp", "src/core/population.hpp"],
     [("findParetoFront, findParetoFront1D/Sort/Best/Kung, findNadirPoint, findFrontNadirPoint, toFitnessVector", "src/core/population.cpp"), ("mergeParetoSets, toFitnessMatrix, findParetoFront(population)", "src/core/population.hpp")])

prop("C09", "Non-dominated sorting assigns every solution its Pareto rank",
     "For any non-empty fitness matrix or range of rows whose values are equal or differ by more than the comparison tolerance, non-dominated sorting returns every row exactly once, ordered by rank, where the rank is the number of fronts that have to be removed before the row becomes non-dominated (a row dominated by another has the larger rank, and a row of rank k > 0 is dominated by one of rank k-1); the efficient, fast and dominance-degree sorts all return these ranks. "
     "ParetoFronts keeps this bookkeeping: ranks() gives the rank at every index, fronts() the consecutive ranges of equal rank covering all elements, partialFront(n) exactly the front that a cut after n elements splits (empty if it splits none), resize(n) the first n elements.",
     ["inputs"], "all non-empty fitness matrices without NaN with separated values and all sub-ranges of their rows; all rank-ordered element lists and all cut sizes (the fast and dominance-degree sorts: bounded harness only)",
     "the tests use one hand-written matrix; front insertion with interleaved ranks, duplicates, long chains and sub-ranges that do not start at the first row are not sampled",
     ["src/algorithm/nd_sort.cpp", "src/algorithm/nd_sort.hpp"],
     [("efficientNonDominatedSort, nonDominatedSort, ParetoFronts::ranks/fronts/partialFront/resize", "src/algorithm/nd_sort.cpp"), ("fastNonDominatedSort, dominanceDegreeSort (bounded harness)", "src/algorithm/nd_sort.cpp")])

prop("C10", "Replacement policies keep the right candidates and the population size",
     "For any population size and any combined parent and child fitness values (one objective, equal or separated by more than the tolerance), KeepChildren selects exactly the first population-size children in order; Elitism(n) selects min(n, population size) distinct parents such that no other parent is better, followed by the first children; and KeepBest selects the population-size best candidates of both, each once, best first. "
     "The next population consists of population-size intact candidates of the combined population at exactly the indices the policy chose, none duplicated or lost, so the best fitness never decreases over a run with KeepBest or at least one elite. "
     "Candidates handed to crossover are members of the current population, and the reported optimal solutions are the algorithm's choice or the Pareto front.",
     ["inputs", "histories"], "all population sizes, elite counts and fitness values without NaN (separated); any policy that returns distinct valid indices; selections of any algorithm that returns a valid index",
     "the tests check one population with fixed fitness values per policy; elite counts beyond the population size, partial sorting with few elites of a large population, ties and several generations are not sampled",
     ["src/algorithm/soga_replacement.cpp", "src/algorithm/algorithm_base.impl.hpp", "src/utility/algorithm.hpp"],
     [("KeepChildren, Elitism, KeepBest::nextPopulationImpl", "src/algorithm/soga_replacement.cpp"), ("Algorithm::nextPopulation, optimalSolutions, select", "src/algorithm/algorithm_base.impl.hpp"), ("partial_argsort, argsort, index_vector, select", "src/utility/algorithm.hpp")])

prop("C11", "NSGA-II and NSGA-III keep the best fronts and split the last one as documented",
     "For every combined population of parents and children, the next population has exactly population-size distinct candidates, contains every candidate whose non-dominated rank is better than the worst rank it contains, and the stored ranks (and NSGA-II's crowding distances) are those of the kept candidates; the optimal solutions are exactly the rank 0 ones. "
     "From the front that does not fit completely NSGA-II keeps the candidates with the largest crowding distances in that front; NSGA-III always takes the candidate closest to a reference line that has the fewest kept candidates, so that no kept candidate's line has over one candidate more than the line of a candidate left out. "
     "Parent selection is a binary tournament: NSGA-II prefers the lower rank, then the larger crowding distance; NSGA-III the lower rank, then the smaller line distance within one niche, and either at random across niches; NSGA-III's ideal point is the largest value seen per objective, its extreme points minimize the scalarized distance.",
     ["inputs"], "all population sizes, numbers of objectives and fitness values without NaN whose differences do not overflow (values of one objective equal or further apart than the comparison tolerance); NSGA-III: distances to the reference lines that do not overflow; a population and at least one child",
     "the tests run whole optimisations of a few benchmark problems and check that the result is roughly good; which candidates of a split front survive, stale ranks and distances, or unfair niching stay invisible",
     ["src/algorithm/nsga2.cpp", "src/algorithm/nsga3.cpp"],
     [("crowdingDistances, NSGA2::initializeImpl, nextPopulationImpl, selectImpl, optimalSolutionsImpl", "src/algorithm/nsga2.cpp"), ("NSGA3::Impl: niche counts, reference set, closest candidate, extreme points; NSGA3::nextPopulationImpl", "src/algorithm/nsga3.cpp")])

prop("C12", "Single-objective selection favours fitter candidates as documented",
     "For any finite fitness values, every selection operator returns a valid index of the population, and the roulette, sigma, Boltzmann and rank methods turn the fitness values into a non-decreasing cumulative distribution of non-negative numbers, computed from weights that are never smaller for a better candidate (extreme, equal, subnormal and negative values and a population of one included). "
     "The selection probabilities are the documented ones: proportional to non-negative fitness (roulette), linear in the rank between the two configured weights (rank), 1 + (f - mean) / (scale * deviation) cut at 0 (sigma), exp(normalised f / temperature) (Boltzmann). "
     "Tournament selection returns the best of its uniformly drawn candidates.",
     ["inputs"], "all population sizes, all finite fitness values up to 2^500 in magnitude (rank, tournament: all without NaN), all operator parameters their constructors accept; the exact probabilities: statistical harness with populations of up to 10",
     "the tests call the operators through a few default runs and never look at the selection weights or probabilities; overflow, underflow, zero variance, populations of one and non-default parameters are not sampled",
     ["src/algorithm/soga_selection.cpp", "src/algorithm/soga_selection.hpp", "src/utility/rng.hpp"],
     [("weightsToCdf, Roulette/Rank/Sigma/Boltzmann::prepareSelectionsImpl and selectImpl, Tournament::selectImpl", "src/algorithm/soga_selection.cpp"), ("rng::sampleCdf", "src/utility/rng.hpp"), ("toFitnessVector", "src/core/population.cpp")])

prop("C19", "Sorting, searching and selecting of indices and elements are exact",
     "For every sequence (empty ones, equal values and reversed ranges included), argsort and partial_argsort return a permutation of the positions in (the first part of) the requested order, argmax/argmin and max_element/min_element name an extreme element (the first of equals; the last in a reversed range), and lower_bound the first element of a sorted range that is not smaller than the value. "
     "find_all, find_indices, find_index, index_of and contains report exactly the matching elements in order, select copies exactly the named elements, erase_first_stable removes only the first match, erase_duplicates leaves every value once, elementwise_min/max and max/min take the right argument. "
     "partial_shuffle only exchanges elements inside of the range, filling its first part uniformly.",
     ["inputs"], "all sequences of up to 2^50 elements of an ordered type and all predicates (proofs on the size_t / double instantiations); the uniformity of partial_shuffle: statistical harness",
     "the tests check each helper on one or two literal sequences; the 20 % switch of partial_argsort, the halving of lower_bound above 32 elements, reversed ranges with equal values and empty ranges are not sampled",
     ["src/utility/algorithm.hpp", "src/utility/functional.hpp"],
     [("argsort, partial_argsort, lower_bound, max_element, min_element, argmax, argmin, max, min, partial_shuffle, contains, find_all, index_of, find_index, find_indices, elementwise_min, elementwise_max, erase_first_stable, select, erase_duplicates", "src/utility/algorithm.hpp")])

prop("C13", "Every reported fitness value belongs to its chromosome, every call is counted",
     "After the initialization and after every generation each candidate of the population is evaluated, and for a static fitness function its fitness vector is the function's value for exactly its chromosome, whatever crossover, mutation, repair, reuse of known values and the fitness cache did; the fitness matrix holds these vectors in order and the population has the population size. "
     "num_fitness_evals is the number of calls made to evaluate candidates: never one for a candidate whose fitness is known, at most one per candidate and generation, exactly one with a dynamic function. "
     "The reported optimal solutions are evaluated candidates, updates leave no chromosome in them twice, values cached in an earlier run are never used, and the settings are unchanged by a run.",
     ["inputs", "histories", "schedules"], "all populations, chromosomes, operators, rates, repair functions, cache sizes and numbers of generations; all orders of the parallel evaluation of a generation (proved on GA<IntegerGene>; other encodings: harness)",
     "the tests run a few algorithms to their end and look at the best fitness; stale fitness values after particular combinations of crossover, mutation, repair and caching are invisible to them",
     ["src/core/ga_base.impl.hpp", "src/core/ga_base.decl.hpp", "src/crossover/crossover_base.impl.hpp", "src/mutation/mutation_base.impl.hpp", "src/utility/cache.hpp"],
     [("GA::evaluate, GA::repair, GA::mutate, GA::crossover, GA::generatePopulation, GA::updatePopulation, GA::updateOptimalSolutions, GA::initializeAlgorithm, GA::advance, GA::solve", "src/core/ga_base.impl.hpp"), ("Crossover::operator()", "src/crossover/crossover_base.impl.hpp"), ("Mutation::operator()", "src/mutation/mutation_base.impl.hpp")])

prop("C14", "Stop conditions: met exactly when documented, over the whole history of a run",
     "FitnessEvals is met in the first generation with at least the given number of evaluations, FitnessValue when some candidate is not Pareto-dominated by the threshold, FitnessMeanStall and FitnessBestStall exactly when none of the last patience + 1 generations improved any objective of the mean or best fitness by delta over the best value reached so far, NoEarlyStop never; every condition is also met in the last generation allowed. "
     "A composition with &&, || or ! is met according to its operands, initialises both of them and, unless an OR is already met, evaluates both in every generation so that their histories stay complete; compositions can be nested. "
     "The per-objective minimum and maximum of a population are attained bounds of it.",
     ["inputs", "histories"], "all populations, thresholds, patience values below 2^64 - 1, deltas and histories; operands of a composition are arbitrary state machines",
     "the tests step a single condition through a few generations; the history a stall condition depends on is unbounded",
     ["src/stop_condition/stop_condition.cpp", "src/stop_condition/stop_condition_base.cpp", "src/stop_condition/composite.hpp", "src/metrics/pop_stats.cpp", "src/utility/algorithm.hpp"],
     [("FitnessEvals, FitnessValue, FitnessMeanStall, FitnessBestStall, metricImproved", "src/stop_condition/stop_condition.cpp"), ("StopCondition::operator()", "src/stop_condition/stop_condition_base.cpp"), ("AND, OR, NOT", "src/stop_condition/composite.hpp"), ("maxFitness, minFitness, fitnessMean", "src/metrics/pop_stats.cpp"), ("elementwise_min, elementwise_max", "src/utility/algorithm.hpp")])
prop("C15", "Metrics: one correct value per generation, hypervolume included",
     "After every generation each tracked metric has exactly one more value, the earlier ones (apart from AutoHypervolume's) unchanged and the values of the previous run gone: the minimum, maximum, mean, sample variance and standard deviation of each objective over the population, the nadir point of its Pareto front, its hypervolume, and the number of fitness evaluations of the generation. "
     "The hypervolume is the volume of the union of the boxes between the reference point and the points, whatever their order, repetitions or dominance; AutoHypervolume's values of all generations are relative to the same reference point, the worst one of all generations. "
     "Every tracked metric is initialised once per run and updated once per generation.",
     ["inputs", "histories"], "all populations (hypervolume: values equal or separated by more than the tolerance), numbers of objectives and histories of generations; the rounding of floating-point sums in the hypervolume is not bounded",
     "the tests compare a few populations with precomputed values; the recursion of the hypervolume and the history of AutoHypervolume are unbounded",
     ["src/metrics/pop_stats.cpp", "src/metrics/fitness_metrics.cpp", "src/metrics/distribution_metrics.cpp", "src/metrics/misc_metrics.cpp", "src/metrics/metric_set.cpp", "src/metrics/monitor.hpp", "src/utility/math.cpp"],
     [("fitnessMin/Max/Mean/Variance/StdDev, hypervolume (WFG), uniqueSortedParetoFront, limitSet", "src/metrics/pop_stats.cpp"), ("the fitness metrics", "src/metrics/fitness_metrics.cpp"), ("NadirPoint, Hypervolume, AutoHypervolume", "src/metrics/distribution_metrics.cpp"), ("FitnessEvaluations", "src/metrics/misc_metrics.cpp"), ("MetricSet", "src/metrics/metric_set.cpp"), ("volumeBetween", "src/utility/math.cpp")])

prop("C16", "A small vector behaves like a dynamic array",
     "After any sequence of operations a small vector holds exactly the elements the same operations leave in a dynamic array, in the same order, whether they are in the inline buffer or on the heap: inserting, erasing, resizing, assigning and appending change only what they say, also when the inserted value is an element of the vector itself, and return the position of the first inserted or following element. "
     "The capacity is never below the size or the inline size, and the elements stay in place as long as the capacity is not exceeded; every element is constructed once before it is used and destroyed once, every block is returned once, and a failing copy or move of an element leaks nothing and leaves the vector valid (unchanged for push_back, reserve and shrink_to_fit).",
     ["inputs", "histories"], "all sizes, capacities, inline sizes and positions, values inside and outside of the vector (sizes up to 2^60 elements), move construction, move and copy assignment and swap in all combinations of inline and heap storage; copy construction, comparison, input iterators, initializer lists and exceptions: randomised harness",
     "the tests use one or two literal vectors per operation; the interplay of position, count, size and capacity, the aliasing of the arguments and the lifetime of the elements need all of them",
     ["src/utility/small_vector.hpp"],
     [("small_vector: constructors, destructor, move construction, copy and move assignment, swap, assign, resize, reserve, shrink_to_fit, insert, emplace, emplace_back, push_back, erase, pop_back, clear, reset, element access", "src/utility/small_vector.hpp"), ("construct_range, destroy_range, relocate_range_strong, relocate_range_weak", "src/utility/small_vector.hpp")])

prop("C17", "The fitness cache returns what was stored for a key and forgets the oldest key",
     "After any sequence of operations on the cache, a lookup finds a key exactly when it is one of the at most capacity many stored keys, and returns the value last stored for an equal key; a new key goes to the end of the order, displacing only the oldest key of a full cache, an insertion of a known key keeps its place, and no insertion invalidates the stored references. "
     "Inserting a range stores the value computed for each of its last capacity many elements; clear and reset forget everything; copies, moves and swaps carry contents, order and capacity. "
     "The circular buffer behind it is a sequence of at most capacity elements: pushing to one end of a full buffer drops the element at the other end, everything else keeps its order; every element is destroyed exactly once, and a failing allocation leaves the buffer usable.",
     ["inputs", "histories"], "all sequences of operations, capacities and positions of the wrap-around (buffers of up to 2^60 elements); copies, moves, swaps and failing allocations: randomised and small exhaustive harness",
     "the tests sample a few literal sequences; the wrap-around of the indices, the eviction together with known keys, and the lifetime of the elements depend on the whole history",
     ["src/utility/cache.hpp", "src/utility/circular_buffer.hpp"],
     [("fifo_cache: get, contains, insert, try_insert, range insert, clear, reset", "src/utility/cache.hpp"), ("circular_buffer: emplace_back, emplace_front, pop_front, pop_back, front, back, operator[], at, clear, reset, set_capacity, destroy", "src/utility/circular_buffer.hpp")])

prop("C20", "Every candidate of a run is valid for its encoding and within its bounds",
     "Every chromosome that a run of a genetic algorithm shows to the user - in the initial population, to the fitness and the repair function, in the population after every generation and in the returned solutions - is valid: it has one gene per position; binary genes are 0 or 1, integer and real genes lie within the bounds given to that run, permutation chromosomes are permutations. "
     "This assumes that the initial population given by the user and the results of a user-supplied repair function, crossover or mutation are valid. "
     "The given initial candidates come first in the initial population, which is filled up to the population size with generated ones.",
     ["inputs", "histories"], "all chromosome lengths, bounds, draws of the random numbers and numbers of generations; all combinations of operators through their contracts (C01 to C05)",
     "the tests run a few optimisations with fixed settings; validity has to hold in every generation, for every draw and for bounds that change between runs of the same object",
     ["src/core/ga_base.impl.hpp", "src/encoding/binary.cpp", "src/encoding/integer.cpp", "src/encoding/permutation.cpp", "src/encoding/real.cpp", "src/crossover/crossover_base.impl.hpp", "src/mutation/mutation_base.impl.hpp"],
     [("generateCandidate of BinaryGA, IntegerGA, PermutationGA and RCGA", "src/encoding"), ("GA: initializeAlgorithm, generatePopulation, advance, repair, updatePopulation, updateOptimalSolutions, solve", "src/core/ga_base.impl.hpp")])

prop("C21", "Parallel loops call the function once per element and finish before returning",
     "A parallel loop over a range calls the function exactly once for every element, for every number of threads, range and block size, and returns only after every call has finished. "
     "If calls throw, on worker threads or on the calling thread, the loop still waits for everything it started and then throws one of those exceptions. "
     "The task queues hand out every accepted element once and in order, refuse elements once closed, and end their consumers only when closed and empty.",
     ["inputs", "schedules"], "all ranges, block sizes and numbers of workers; all subsets of the calls throwing; for the queue, all states other threads may leave between two critical sections",
     "the tests run a few loops; which thread runs which block, and when an exception is thrown relative to the other blocks, depends on the schedule",
     ["src/utility/thread_pool.hpp", "src/utility/concurrent_queue.hpp", "src/utility/latch.hpp"],
     [("thread_pool::execute_loop, worker_main, scheduled_worker_queue, thread_count, parallel_for", "src/utility/thread_pool.hpp"), ("concurrent_queue: emplace, take, close, closed, empty", "src/utility/concurrent_queue.hpp"), ("latch: count_down, wait, try_wait", "src/utility/latch.hpp")])

NA = {}
