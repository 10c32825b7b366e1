#include "gah.hpp"
#include <atomic>
#include <bit>
using namespace H;

template<typename T> static uint64_t bits(T x)
{
    if constexpr (std::is_floating_point_v<T>) return std::bit_cast<uint64_t>(double(x) + 0.0);
    else return uint64_t(x);
}
// fitness values that tell any two chromosomes apart (also ones an ulp apart)
template<typename T> static FitnessVector hash_fit(const Chromosome<T>& c, size_t nobj, uint64_t salt)
{
    uint64_t h = 0x9E3779B97F4A7C15ull ^ salt;
    for (const auto& g : c) { h ^= bits(g) + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xBF58476D1CE4E5B9ull; h ^= h >> 29; }
    FitnessVector f(nobj, 0.0);
    for (size_t i = 0; i < nobj; i++) { h *= 0x94D049BB133111EBull; h ^= h >> 31; f[i] = double(int64_t(h >> 40)) / 64.0; }
    return f;
}
static std::atomic<size_t> g_calls{ 0 };
static std::atomic<uint64_t> g_salt{ 0 };
template<typename T> struct Hashed final : FitnessFunctionBase<T>
{
    size_t nobj;
    Hashed(size_t len, size_t n, bool dyn) : FitnessFunctionBase<T>(len, dyn ? FitnessFunctionBase<T>::Type::Dynamic : FitnessFunctionBase<T>::Type::Static), nobj(n) {}
    FitnessVector invoke(const Chromosome<T>& c) const override { g_calls++; return hash_fit(c, nobj, g_salt); }
};
template<typename T> static void run_ga()
{
    using GA_t = typename GaOf<T>::type;
    const size_t pop = rnd(2, 9), len = rnd(2, 5), nobj = rnd(1, 3), gens = rnd(1, 6);
    const bool dyn = coin(0.25), keep = coin(), par = coin(0.1);
    const size_t cache = rnd(0, 3);
    const double pc = std::array{ 0.0, 0.5, 0.9, 1.0 }[rnd(0, 3)], pm = std::array{ 0.0, 0.05, 0.3, 1.0 }[rnd(0, 3)];
    const int rep = int(rnd(0, 2));
    const size_t seed = reseed();
    gapp::execution_threads(par ? 4 : 1);
    GA_t ga(Positive<size_t>{ pop });
    ga.crossover_rate(pc);
    if (coin()) ga.mutation_rate(pm);
    ga.cache_size(cache);
    ga.keep_all_optimal_solutions(keep);
    const int alg = int(rnd(0, 3));
    if (alg == 1 && nobj > 1) ga.algorithm(algorithm::NSGA2{});
    if (alg == 2 && nobj > 1) ga.algorithm(algorithm::NSGA3{});
    if (alg == 3 && nobj == 1) ga.algorithm(algorithm::SingleObjective{ selection::Tournament{}, replacement::Elitism{ 2 } });
    if (alg == 0 && nobj > 1 && coin()) ga.algorithm(algorithm::NSGA2{});
    if constexpr (std::is_same_v<T, RealGene>)
        if (coin(0.4)) ga.mutation_method(mutation::Lambda<T>([](const GA<T>&, const Candidate<T>&, Chromosome<T>& c) { for (auto& g : c) if (coin(0.3)) g = std::nextafter(g, 0.0); }));
    if (rep) ga.repair_function([rep](const GA<T>&, const Chromosome<T>& c)
    {
        Chromosome<T> r = c;
        if (rep == 1) return r;
        if (coin()) std::swap(r.front(), r.back());
        if constexpr (std::is_same_v<T, RealGene>) if (coin()) r[0] = std::nextafter(r[0], 0.0);
        return r;
    });
    const size_t solves = rnd(1, 3);
    for (size_t s = 0; s < solves; s++)
    {
        begin("genes=", typeid(T).name(), " population=", pop, " length=", len, " objectives=", nobj, " generations=", gens, " dynamic=", dyn, " cache=", cache, " pc=", pc, " pm=", pm, " repair=", rep, " algorithm=", alg, " keep_all=", keep, " threads=", par ? 4 : 1, " solve no. ", s, " seed=", seed);
        g_calls = 0;
        g_salt = H::rng();
        const uint64_t salt = g_salt;
        size_t expected = 0;
        std::set<std::vector<uint64_t>> known;
        ga.on_generation_end([&](const GaInfo& info)
        {
            check(info.generation_cntr() == expected, "generation ", info.generation_cntr(), " reported, expected ", expected);
            expected++;
            check(ga.population().size() == pop && info.fitness_matrix().size() == pop, "population of ", ga.population().size(), ", fitness matrix of ", info.fitness_matrix().size(), " rows");
            for (size_t i = 0; i < pop; i++)
            {
                const auto& c = ga.population()[i];
                check(c.is_evaluated && c.fitness.size() == nobj, "candidate ", i, " is not evaluated");
                check(std::equal(c.fitness.begin(), c.fitness.end(), info.fitness_matrix()[i].begin(), info.fitness_matrix()[i].end()), "row ", i, " of the fitness matrix differs from the candidate's fitness");
                if (!dyn)
                {
                    const auto f = hash_fit(c.chromosome, nobj, salt);
                    check(std::equal(f.begin(), f.end(), c.fitness.begin()), "generation ", info.generation_cntr(), ": the fitness of candidate ", i, " is not the one of its chromosome");
                }
            }
            check(info.num_fitness_evals() + 1 == g_calls, info.num_fitness_evals(), " evaluations reported, ", g_calls.load() - 1, " made");
            check(info.num_fitness_evals() <= pop * (info.generation_cntr() + 1), "more than one evaluation per candidate");
            if (dyn) check(info.num_fitness_evals() == pop * (info.generation_cntr() + 1), "dynamic fitness function not called once per candidate: ", info.num_fitness_evals());
        });
        Population<T> init;
        if (coin(0.3) && s > 0 && !dyn) for (const auto& c : ga.population()) { Candidate<T> x{ c.chromosome }; if (coin()) { x.fitness = hash_fit(x.chromosome, nobj, salt); x.is_evaluated = true; } init.push_back(x); }
        const size_t before_max = ga.max_gen();
        Candidates<T> sols;
        if constexpr (std::is_same_v<T, IntegerGene>) sols = ga.solve(Hashed<T>(len, nobj, dyn), Bounds<T>{ -1, 2 }, gens, init);
        else if constexpr (std::is_same_v<T, RealGene>) sols = ga.solve(Hashed<T>(len, nobj, dyn), Bounds<T>{ -1.0, 1.0 }, gens, init);
        else sols = ga.solve(Hashed<T>(len, nobj, dyn), gens, init);
        check(expected == gens, expected, " generations run instead of ", gens);
        check(ga.max_gen() == before_max, "max_gen not restored");
        check(!sols.empty(), "no solutions");
        for (size_t i = 0; i < sols.size(); i++)
        {
            check(sols[i].is_evaluated && sols[i].fitness.size() == nobj, "solution ", i, " is not evaluated");
            for (size_t j = 0; j < i && !(keep && gens == 1); j++) check(sols[i].chromosome != sols[j].chromosome, "solution ", i, " is reported twice");
            if (!dyn) { const auto f = hash_fit(sols[i].chromosome, nobj, salt); check(std::equal(f.begin(), f.end(), sols[i].fitness.begin()), "the fitness of solution ", i, " is not the one of its chromosome"); }
        }
    }
    gapp::execution_threads(1);
}
// the operators called directly
template<typename T> static void mutate_op()
{
    const size_t len = rnd(2, 5), nobj = rnd(1, 2);
    const auto& ga = ctx<T>(len, nobj);
    Chromosome<T> c(len);
    if constexpr (std::is_same_v<T, RealGene>) for (auto& g : c) g = double(irnd(-4, 4)) / 4;
    else if constexpr (std::is_same_v<T, PermutationGene>) c = rand_perm(len);
    else for (auto& g : c) g = T(rnd(0, 1));
    Candidate<T> x{ c };
    x.is_evaluated = coin(0.8);
    if (x.is_evaluated) x.fitness = hash_fit(c, nobj, 5);
    const size_t which = rnd(0, 2), at = rnd(0, len - 1);
    begin("mutation of ", typeid(T).name(), " length=", len, " evaluated=", x.is_evaluated, " kind=", which, " at=", at);
    mutation::Lambda<T> m([&](const GA<T>&, const Candidate<T>&, Chromosome<T>& r) { if (which == 1) std::swap(r[at], r[0]); if constexpr (std::is_same_v<T, RealGene>) if (which == 2) r[at] = std::nextafter(r[at], 2.0); });
    const bool was = x.is_evaluated;
    m(ga, x);
    if (x.is_evaluated)
    {
        const auto f = hash_fit(x.chromosome, nobj, 5);
        check(was && std::equal(f.begin(), f.end(), x.fitness.begin()), "mutation leaves a wrong fitness");
    }
}
template<typename T> static void cross_op()
{
    const size_t len = rnd(2, 5), nobj = rnd(1, 2);
    const auto& ga = ctx<T>(len, nobj);
    auto make = [&]
    {
        Chromosome<T> c(len);
        if constexpr (std::is_same_v<T, RealGene>) for (auto& g : c) g = double(irnd(-1, 1)) / 4;
        else if constexpr (std::is_same_v<T, PermutationGene>) c = rand_perm(len);
        else for (auto& g : c) g = T(rnd(0, 1));
        Candidate<T> x{ c };
        x.is_evaluated = true;
        x.fitness = hash_fit(c, nobj, 7);
        return x;
    };
    const Candidate<T> a = make(), b = make();
    const size_t k1 = rnd(0, 4), k2 = rnd(0, 4);
    begin("crossover of ", typeid(T).name(), " length=", len, " kinds=", k1, ",", k2);
    auto child = [&](size_t k) -> Candidate<T>
    {
        Candidate<T> x = k % 2 ? a : b;
        if (k >= 2) std::swap(x.chromosome.front(), x.chromosome.back());
        if constexpr (std::is_same_v<T, RealGene>) if (k == 4) { x.chromosome = a.chromosome; x.chromosome[0] = std::nextafter(x.chromosome[0], 2.0); }
        if (coin(0.3)) x.fitness.clear();
        return x;
    };
    crossover::Lambda<T> op([&](const GA<T>&, const Candidate<T>&, const Candidate<T>&) { return CandidatePair<T>{ child(k1), child(k2) }; });
    op.crossover_rate(coin(0.8) ? 1.0 : 0.5);
    auto r = op(ga, a, b);
    for (const Candidate<T>* x : { &r.first, &r.second })
        if (x->is_evaluated)
        {
            const auto f = hash_fit(x->chromosome, nobj, 7);
            check(x->fitness.size() == nobj && std::equal(f.begin(), f.end(), x->fitness.begin()), "crossover returns a child with a wrong fitness");
        }
}
static void runs() { switch (rnd(0, 3)) { case 0: run_ga<BinaryGene>(); break; case 1: run_ga<IntegerGene>(); break; case 2: run_ga<RealGene>(); break; default: run_ga<PermutationGene>(); } }
static void ops() { switch (rnd(0, 3)) { case 0: mutate_op<RealGene>(); break; case 1: cross_op<RealGene>(); break; case 2: mutate_op<IntegerGene>(); cross_op<PermutationGene>(); break; default: cross_op<BinaryGene>(); mutate_op<PermutationGene>(); } }
int main(int argc, char** argv)
{
    setup_ga();
    return run(argc, argv, { { "runs", nullptr, runs, 5 }, { "operators", nullptr, ops, 3 } });
}
