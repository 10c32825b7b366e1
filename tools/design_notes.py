NOTES = {
"C01": "Postconditions: each child is a permutation of the parents' genes (injective, same value set), plus the positional guarantees. Injectivity arguments use the pigeonhole lemma (a proved WhyML lemma). Selected positions and cut points are arbitrary. Edge crossover: neighbour lists as ghost sets, termination by remaining genes.",
"C02": "Relation `exchanged`: position by position a child pair holds the parents' pair. The n-point exchange state is a function of the sorted cut points; uniform uses a binomial number of distinct positions.",
"C03": "IEEE facts (Flocq) bound every intermediate value under the stated magnitude; the result is clamped, so the interesting part is that no NaN reaches the clamp and that the children are the stated affine combinations.",
"C04": "Permutation-preservation as multiset equality of sequences (reverse, rotate, swap are permutations by their standard contracts); segment lengths as integer arithmetic over the conversion of `range_max * n`.",
"C05": "Frame condition: `forall i. not sampled i -> unchanged i`; validity of the changed genes from the draw contracts of C06 and clamps. The integer draw avoiding the old allele is a rejection loop whose termination is probabilistic (declared `diverges`).",
"C06": "xoroshiro/splitmix words are any 64-bit value; the ranges follow from the conversion arithmetic (bit-vector and FP facts). Distinctness of sampled sets via ghost sets for both the bitset and the set-based branch.",
"C07": "The comparison is written down once as a predicate over IEEE operations; trichotomy, asymmetry and agreement of all functions are lemmas/postconditions. The FP facts are bit-level proofs.",
"C08": "Loop invariants carry the cover relation: every removed row is found or dominated by a remaining or found one; termination by shrinking ranges; Kung's recursion by its own contract. mergeParetoSets by rely-guarantee over its flags.",
"C09": "Ranks are specified inductively (`rank m x k`); each algorithm's bookkeeping (dominator counts, domination lists, dominance degrees, sorted fronts) is an invariant relating it to that definition.",
"C10": "Index-set postconditions for each policy and for the applied selection (`select`, `move` of candidates by index), proved over arbitrary fitness orders.",
"C11": "All of NSGA-II and NSGA-III under contract, from the ideal and extreme points and the association with the nearest reference line to the niching loop of nextPopulationImpl: its invariant says that the niche counts are the numbers of chosen candidates per line, that the lines of the remaining candidates are listed once each with the least crowded first, and that the front that is cut is only reordered; the postcondition states fairness and closeness of what is kept against what is left out. Not followed: the arithmetic inside std::inner_product and math::perpendicularDistanceSq (uninterpreted functions of the point and the line, assumed not to overflow), the reference line generators (assumed to return rows of the requested number and length), parallel_for (proved as C21) as a sequential loop over distinct candidates.",
"C12": "Selection weights -> cumulative distribution as relations over IEEE operations with monotonicity lemmas; the exact distribution is additionally compared statistically (7 sigma) in the harness.",
"C13": "Class invariant of GA (population valid, evaluated, fitness matrix in sync, cache only holds pairs of a chromosome and its fitness) established by initializeAlgorithm and preserved by advance; ghost counters count the calls, the generations and the metric updates. Crossover, mutation, repair, fitness are virtual/user functions represented by contracts.",
"C14": "Composites are verified against arbitrary child state machines (`stops_`, `next_`), so histories of any length are covered by induction over generations (`lemma_patience`: a stall counter runs out after exactly patience + 1 steps without improvement). `fitnessMean` is specified by its exact IEEE sum.",
"C16": "The memory of the vector is ghost state: the block in use (`mem`), which of its cells hold an object (`alive`), whether it is on the heap, the size n and the capacity; a new block in reallocate_* is a second ghost block whose cells start empty, and set_storage makes it the first one. Class invariant: exactly the first n cells are alive, n <= cap, and the block is the inline buffer exactly when it is not on the heap. construct and the uninitialised ranges need empty cells, destroy, assign and every read need live ones, deallocate a block without live cells, so each operation's postcondition (`splice`-like relations between old and new contents) comes with no leak, double destruction or read of a dead object. A `const T&` parameter may refer to an element (ghost index `valias`): reading it after its cell was overwritten, destroyed or moved from is a failed obligation. The guards are objects with an armed flag that must be off at the end. The range functions under it are verified for an element type with its own constructor and destructor. swap, the move constructor and both assignments are verified in a second memory model with all blocks of both vectors (block ids; pointers are pairs of block and index; `big`/`small` are object terms chosen by the real condition): afterwards both vectors are valid, own different blocks, hold the elements they should, and no heap block is lost. Exceptions (every fuse position of throwing copies and moves): harness, under ASan.",
"C17": "The block behind the circular buffer is ghost memory (contents, which cells hold an object, whether a block is held): construct needs a free cell, destroy a live one, deallocate a block without live objects. The class invariant says that exactly the cells first .. first + size (wrapped) are alive. For the cache the order (a sequence of keys, the contract of the circular buffer) and the map (an abstract finite map, the contract of std::unordered_map) list the same keys; map iterators are keys whose validity needs that no insertion rehashes, which is an obligation. swap, assignment, moves, the copy and operator== of the cache, and swap, move and assignment of the buffer, are proved on the state of two objects (a cell of the order is an iterator of its own cache's map). Exceptions and the copy of the buffer: harness with refusing allocators and tracked objects under ASan.",
"C19": "Each algorithm against its sequence specification; reversed ranges have their own targets because the argmax/argmin tie-breaking and index computation differs there. std::sort and std::partial_sort by their standard contracts.",
"C20": "The four generateCandidate overrides are proved against the encodings. The targets of C13 are then verified once more with an abstract predicate okg (validity for the encoding under the bounds of the run) in every contract: the virtual operators, the repair function and generateCandidate preserve or establish it (C01 to C05 and the first four targets), generateCandidate and findNumberOfObjectives must see the bounds of this run (an obligation at the call), and solve returns only solutions with it. Harness: all operators of all encodings, bounds that change between runs.",
"C21": "execute_loop is verified with its worker tasks run at the point of submission (assumption: a queued task runs exactly once before its latch count reaches 0; an obligation shows that tasks share no plain variable of the loop by reference, so the time of their execution does not matter). A ghost sequence counts the calls per element; the user's function may throw at any call (WhyML exception); the exceptional postcondition says that the latch was waited for. concurrent_queue is verified as a monitor: its state is havocked at every acquisition (a closed queue stays closed), may only be used while the lock is held, and take/emplace/close have FIFO postconditions relative to the state at acquisition; condition_variable::wait may not block on a non-empty or closed queue, and growth or closing must notify. worker_main runs every task it takes. Memory ordering, fairness and termination of wait are assumed. Harness: real threads, nested loops, exceptions on every element, producers and consumers.",
}
