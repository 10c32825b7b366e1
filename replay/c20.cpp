// Every candidate of a run is valid for its encoding: genes, bounds of this run, length; chromosomes seen by the
// fitness function, the repair function, the populations, the solutions.
#include "gah.hpp"
using namespace H;

template<typename T> struct Env
{
    size_t len = 0;
    BoundsVector<T> bounds;
};
template<> struct Env<BinaryGene> { size_t len = 0; };
template<> struct Env<PermutationGene> { size_t len = 0; };
template<typename T> static void valid(const Env<T>& e, const Chromosome<T>& c, const char* where)
{
    check(c.size() == e.len, where, ": a chromosome of ", c.size(), " genes: ", c);
    if constexpr (std::is_same_v<T, PermutationGene>) check(is_perm(c, e.len), where, ": not a permutation: ", c);
    else if constexpr (std::is_same_v<T, BinaryGene>) for (auto g : c) check(g <= 1, where, ": a gene is not binary: ", c);
    else for (size_t i = 0; i < c.size(); i++) check(c[i] >= e.bounds[i].lower() && c[i] <= e.bounds[i].upper(), where, ": gene ", i, " is out of the bounds [", e.bounds[i].lower(), ", ", e.bounds[i].upper(), "]: ", c);
}
template<typename T> struct Fit final : FitnessFunctionBase<T>
{
    const Env<T>* e; size_t nobj;
    Fit(const Env<T>* env, size_t n) : FitnessFunctionBase<T>(env->len, FitnessFunctionBase<T>::Type::Static), e(env), nobj(n) {}
    FitnessVector invoke(const Chromosome<T>& c) const override
    {
        valid(*e, c, "chromosome given to the fitness function");
        FitnessVector f(nobj, 0.0);
        for (size_t i = 0; i < c.size(); i++) f[i % nobj] += (i % 2 ? 1.0 : -1.0) * double(c[i]);
        return f;
    }
};
template<typename T> static Env<T> env(size_t len)
{
    Env<T> e; e.len = len;
    if constexpr (std::is_same_v<T, IntegerGene>) for (size_t i = 0; i < len; i++) { const long lo = irnd(-20, 20); e.bounds.push_back(Bounds<T>(lo, lo + long(rnd(0, 6)))); }
    if constexpr (std::is_same_v<T, RealGene>) for (size_t i = 0; i < len; i++) { const double lo = irnd(-20, 20) / 4.0; e.bounds.push_back(Bounds<T>(lo, lo + rnd(0, 8) / 8.0)); }
    return e;
}
template<typename T> static Chromosome<T> rand_chrom(const Env<T>& e)
{
    if constexpr (std::is_same_v<T, PermutationGene>) return rand_perm(e.len);
    else
    {
        Chromosome<T> c(e.len);
        for (size_t i = 0; i < e.len; i++)
        {
            if constexpr (std::is_same_v<T, BinaryGene>) c[i] = T(rnd(0, 1));
            else if constexpr (std::is_same_v<T, IntegerGene>) c[i] = irnd(e.bounds[i].lower(), e.bounds[i].upper());
            else c[i] = coin(0.3) ? e.bounds[i].lower() : coin(0.3) ? e.bounds[i].upper() : e.bounds[i].lower() + (e.bounds[i].upper() - e.bounds[i].lower()) * 0.375;
        }
        return c;
    }
}
static size_t pick_cross(BinaryGA& ga) { const size_t k = rnd(0, 4); if (k == 0) ga.crossover_method(crossover::binary::SinglePoint{}); if (k == 1) ga.crossover_method(crossover::binary::TwoPoint{}); if (k == 2) ga.crossover_method(crossover::binary::NPoint{ Positive<size_t>(rnd(1, 3)) }); if (k == 3) ga.crossover_method(crossover::binary::Uniform{}); return k; }
static size_t pick_cross(IntegerGA& ga) { const size_t k = rnd(0, 4); if (k == 0) ga.crossover_method(crossover::integer::SinglePoint{}); if (k == 1) ga.crossover_method(crossover::integer::TwoPoint{}); if (k == 2) ga.crossover_method(crossover::integer::NPoint{ Positive<size_t>(rnd(1, 3)) }); if (k == 3) ga.crossover_method(crossover::integer::Uniform{}); return k; }
static size_t pick_cross(RCGA& ga) { const size_t k = rnd(0, 4); if (k == 0) ga.crossover_method(crossover::real::Arithmetic{}); if (k == 1) ga.crossover_method(crossover::real::BLXa{}); if (k == 2) ga.crossover_method(crossover::real::SimulatedBinary{}); if (k == 3) ga.crossover_method(crossover::real::Wright{}); return k; }
static size_t pick_cross(PermutationGA& ga) { const size_t k = rnd(0, 6); if (k == 0) ga.crossover_method(crossover::perm::Order1{}); if (k == 1) ga.crossover_method(crossover::perm::Order2{}); if (k == 2) ga.crossover_method(crossover::perm::Position{}); if (k == 3) ga.crossover_method(crossover::perm::Cycle{}); if (k == 4) ga.crossover_method(crossover::perm::Edge{}); if (k == 5) ga.crossover_method(crossover::perm::PMX{}); return k; }
static size_t pick_mut(BinaryGA& ga, double pm) { const size_t k = rnd(0, 1); if (k) ga.mutation_method(mutation::binary::Flip{ pm }); return k; }
static size_t pick_mut(IntegerGA& ga, double pm) { const size_t k = rnd(0, 1); if (k) ga.mutation_method(mutation::integer::Uniform{ pm }); return k; }
static size_t pick_mut(RCGA& ga, double pm) { const size_t k = rnd(0, 5); if (k == 0) ga.mutation_method(mutation::real::Uniform{ pm }); if (k == 1) ga.mutation_method(mutation::real::NonUniform{ pm }); if (k == 2) ga.mutation_method(mutation::real::Gauss{ pm }); if (k == 3) ga.mutation_method(mutation::real::Polynomial{ pm }); if (k == 4) ga.mutation_method(mutation::real::Boundary{ pm }); return k; }
static size_t pick_mut(PermutationGA& ga, double pm) { const size_t k = rnd(0, 5); if (k == 0) ga.mutation_method(mutation::perm::Inversion{ pm }); if (k == 1) ga.mutation_method(mutation::perm::Swap2{ pm }); if (k == 2) ga.mutation_method(mutation::perm::Swap3{ pm }); if (k == 3) ga.mutation_method(mutation::perm::Shuffle{ pm }); if (k == 4) ga.mutation_method(mutation::perm::Shift{ pm }); return k; }

template<typename T> static void run_ga()
{
    using GA_t = typename GaOf<T>::type;
    const size_t nobj = rnd(1, 2), pop = nobj == 1 && coin(0.2) ? 1 : rnd(2, 9), solves = rnd(1, 3);
    const double pc = std::array{ 0.5, 0.9, 1.0 }[rnd(0, 2)], pm = std::array{ 0.0, 0.1, 0.5, 1.0 }[rnd(0, 3)];
    const bool keep = coin(), rep = coin(0.3), par = coin(0.1);
    const size_t cache = rnd(0, 2), seed = reseed();
    gapp::execution_threads(par ? 4 : 1);
    GA_t ga(Positive<size_t>{ pop });
    if (pop == 1) ga.algorithm(algorithm::SingleObjective{ selection::Roulette{}, replacement::KeepChildren{} });
    const size_t ck = pick_cross(ga);
    ga.crossover_rate(pc);
    const size_t mk = pick_mut(ga, pm);
    ga.keep_all_optimal_solutions(keep);
    ga.cache_size(cache);
    Env<T> e;
    if (rep) ga.repair_function([&](const GA<T>&, const Chromosome<T>& c) { valid(e, c, "chromosome given to the repair function"); return coin() ? c : rand_chrom(e); });
    for (size_t s = 0; s < solves; s++)
    {
        e = env<T>(rnd(2, 6));
        const size_t gens = rnd(1, 5), ninit = coin(0.4) ? rnd(1, pop + 2) : 0;
        Population<T> init;
        for (size_t i = 0; i < ninit; i++) init.push_back(Candidate<T>{ rand_chrom(e) });
        std::string bs;
        if constexpr (std::is_same_v<T, IntegerGene> || std::is_same_v<T, RealGene>) for (const auto& b : e.bounds) bs += cat("[", b.lower(), ",", b.upper(), "]");
        begin("genes=", typeid(T).name(), " population=", pop, " length=", e.len, " bounds=", bs, " objectives=", nobj, " generations=", gens, " crossover no. ", ck, " mutation no. ", mk, " pc=", pc, " pm=", pm, " repair=", rep, " keep_all=", keep, " cache=", cache, " initial=", ninit, " threads=", par ? 4 : 1, " solve no. ", s, " seed=", seed);
        bool first = true;
        ga.on_generation_end([&](const GaInfo&)
        {
            check(ga.population().size() == pop, "population of ", ga.population().size());
            for (const auto& c : ga.population()) valid(e, c.chromosome, "population");
            for (const auto& c : ga.solutions()) valid(e, c.chromosome, "solutions kept so far");
            if (first) for (size_t i = 0; i < std::min(ninit, pop); i++) check(ga.population()[i].chromosome == init[i].chromosome, "candidate ", i, " of the initial population is not the given one");
            first = false;
        });
        Candidates<T> sols;
        const bool same = coin(0.3);
        if constexpr (std::is_same_v<T, IntegerGene> || std::is_same_v<T, RealGene>)
        {
            if (same && !ninit)
            {
                e.bounds.assign(e.len, e.bounds[0]);
                if (coin()) sols = ga.solve(Fit<T>(&e, nobj), e.bounds[0], gens);
                else { ga.max_gen(gens); sols = ga.solve(std::make_unique<Fit<T>>(&e, nobj), e.bounds[0]); }
            }
            else if (same) { ga.max_gen(gens); sols = ga.solve(Fit<T>(&e, nobj), e.bounds, init); }
            else sols = ga.solve(Fit<T>(&e, nobj), e.bounds, gens, init);
        }
        else if (same) { ga.max_gen(gens); sols = ga.solve(Fit<T>(&e, nobj), init); }
        else sols = ga.solve(Fit<T>(&e, nobj), gens, init);
        check(!sols.empty(), "no solutions");
        for (const auto& c : sols) valid(e, c.chromosome, "solutions");
    }
    gapp::execution_threads(1);
}
template<typename T> static void init_only()
{
    using GA_t = typename GaOf<T>::type;
    const size_t pop = rnd(1, 30), seed = reseed();
    static GA_t ga(Positive<size_t>{ 4 });
    ga.population_size(pop);
    Env<T> e = env<T>(rnd(2, 8));
    if constexpr (std::is_same_v<T, RealGene>) for (auto& b : e.bounds) { const double lo = coin(0.3) ? -std::ldexp(1.0, int(rnd(0, 1000))) : 0.1 * double(irnd(-50, 50)); b = Bounds<T>(lo, coin(0.2) ? std::nextafter(lo, 1e300) : coin(0.3) ? -lo + 11.0 + 2.0 * std::abs(lo) : lo + 0.3); if (!std::isfinite(b.upper() - b.lower())) b = Bounds<T>(0.0, 1.0); }
    if constexpr (std::is_same_v<T, IntegerGene>) for (auto& b : e.bounds) if (coin(0.3)) { const long lo = irnd(-1000, 1000) * (1l << rnd(0, 50)); b = Bounds<T>(lo, lo + long(rnd(0, 3)) * (1l << rnd(0, 50))); }
    begin("first generation: genes=", typeid(T).name(), " population=", pop, " length=", e.len, " seed=", seed);
    if constexpr (std::is_same_v<T, IntegerGene> || std::is_same_v<T, RealGene>) ga.solve(Fit<T>(&e, 1), e.bounds, 1);
    else ga.solve(Fit<T>(&e, 1), 1);
    check(ga.population().size() == pop, "population of ", ga.population().size());
    for (const auto& c : ga.population()) valid(e, c.chromosome, "initial population");
}
static void runs() { switch (rnd(0, 3)) { case 0: run_ga<BinaryGene>(); break; case 1: run_ga<IntegerGene>(); break; case 2: run_ga<RealGene>(); break; default: run_ga<PermutationGene>(); } }
static void inits() { switch (rnd(0, 3)) { case 0: init_only<BinaryGene>(); break; case 1: init_only<IntegerGene>(); break; case 2: init_only<RealGene>(); break; default: init_only<PermutationGene>(); } }
int main(int argc, char** argv)
{
    setup_ga();
    return run(argc, argv, { { "runs", nullptr, runs, 5 }, { "inits", nullptr, inits, 2 } });
}
