// Stop conditions evaluated in every generation of real runs, against a reference simulation of their documentation (all values are exactly representable, so the comparisons are exact).
#include "gah.hpp"
using namespace H;
namespace P = gapp::stopping;

static uint64_t mix(uint64_t h) { h ^= h >> 33; h *= 0xff51afd7ed558ccdULL; h ^= h >> 33; h *= 0xc4ceb9fe1a85ec53ULL; return h ^ (h >> 33); }
static uint64_t salt = 0; static size_t spread = 4; static double drift = 0;
struct Fit final : FitnessFunctionBase<BinaryGene>
{
    size_t nobj;
    Fit(size_t len, size_t n) : FitnessFunctionBase<BinaryGene>(len, Type::Dynamic), nobj(n) {}
    FitnessVector invoke(const Chromosome<BinaryGene>& c) const override
    {
        FitnessVector f; uint64_t h = salt;
        for (auto g : c) h = mix(h * 2 + g + 1);
        for (size_t i = 0; i < nobj; i++) { h = mix(h + i); f.push_back(double(h % spread) - double(spread / 2) + drift); }
        return f;
    }
};
struct Scripted final : P::StopCondition
{
    std::vector<bool>* script; size_t* calls; size_t* inits;
    Scripted(std::vector<bool>* s, size_t* c, size_t* i) : script(s), calls(c), inits(i) {}
    void initialize(const GaInfo&) override { ++*inits; }
    bool stop_condition(const GaInfo&) override { return (*script)[(*calls)++ % script->size()]; }
};
// reference of the two stall conditions
struct Stall
{
    bool mean; size_t patience; double delta; std::vector<double> best; size_t since = 0; bool first = true;
    bool step(const GaInfo& ga)
    {
        const auto& m = ga.fitness_matrix();
        std::vector<double> v(ga.num_objectives(), mean ? 0.0 : -INFINITY);
        for (const auto& r : m) for (size_t i = 0; i < v.size(); i++) v[i] = mean ? v[i] + r[i] : std::max(v[i], r[i]);
        if (mean) for (double& x : v) x /= double(m.size());
        if (best.empty()) best.assign(v.size(), -INFINITY);
        bool imp = false;
        for (size_t i = 0; i < v.size(); i++) if (v[i] >= best[i] + delta) { best[i] = v[i]; imp = true; }
        since = imp ? 0 : since + 1;
        return since >= patience + 1;
    }
};
static void runs()
{
    const size_t nobj = rnd(1, 3), pop = size_t(1) << rnd(2, 4), gens = rnd(1, 24), len = rnd(2, 6);
    const uint64_t seed = H::rng(); gapp::rng::prng.seed(seed);
    spread = rnd(1, 9); salt = H::rng(); drift = 0;
    const size_t patience = rnd(0, 5), evals = rnd(0, 2 * pop * gens), alg = nobj == 1 ? 0 : rnd(1, 2);
    const double delta = double(rnd(0, 7)) * 0.25 - 0.25, step = double(rnd(0, 2)) * 0.25, thr = double(rnd(0, 12)) - 6;
    const size_t stopAt = rnd(0, 40);
    begin("population=", pop, " objectives=", nobj, " generations=", gens, " patience=", patience, " delta=", delta, " threshold=", thr, " evals=", evals, " spread=", spread, " drift=", step, " algorithm=", alg, " seed=", seed);
    BinaryGA ga(pop);
    if (alg == 0) ga.algorithm(algorithm::SingleObjective{}); else if (alg == 1) ga.algorithm(algorithm::NSGA2{}); else ga.algorithm(algorithm::NSGA3{});
    P::FitnessEvals fe(evals); P::FitnessValue fv(FitnessVector(nobj, thr)); P::FitnessMeanStall ms(patience, delta); P::FitnessBestStall bs(patience, delta); P::NoEarlyStop ne;
    Stall rm{ true, patience, delta }, rb{ false, patience, delta };
    std::vector<bool> sa, sb; for (int i = 0; i < 7; i++) { sa.push_back(rnd(0, 1)); sb.push_back(rnd(0, 1)); }
    size_t ca = 0, cb = 0, ia = 0, ib = 0, na = 0, nb = 0;
    const int form = int(rnd(0, 4));
    Scripted A(&sa, &ca, &ia), B(&sb, &cb, &ib);
    auto andc = A && B; auto orc = A || B; auto notc = !A; auto nand = !(A && B); auto mix3 = (A || B) && !B;
    P::StopCondition* comp[] = { &andc, &orc, &notc, &nand, &mix3 };
    bool first = true; size_t seen = 0;
    P::Lambda lam([&](const GaInfo& g)
    {
        if (first) { ms.initialize(g); bs.initialize(g); comp[form]->initialize(g); first = false; check(ia >= 1 && (form == 2 || ib >= 1), "a composite did not initialise its conditions"); }
        const bool last = g.generation_cntr() + 1 >= g.max_gen();
        seen++;
        check(ne(g) == last, "NoEarlyStop");
        check(fe(g) == (last || g.num_fitness_evals() >= evals), "FitnessEvals in generation ", g.generation_cntr(), " after ", g.num_fitness_evals(), " evaluations");
        bool any = false;
        for (const auto& r : g.fitness_matrix()) { bool ge = true, less = false; for (double x : r) { if (x > thr) ge = false; if (x < thr) less = true; } any |= !(ge && less); }
        check(fv(g) == (last || any), "FitnessValue in generation ", g.generation_cntr());
        check(ms(g) == (rm.step(g) || last), "FitnessMeanStall in generation ", g.generation_cntr());
        check(bs(g) == (rb.step(g) || last), "FitnessBestStall in generation ", g.generation_cntr());
        const size_t a0 = ca, b0 = cb;
        auto s = [&](std::vector<bool>& v, size_t i) { return v[i % v.size()] || last; };
        bool want = false; size_t wa = a0, wb = b0;
        switch (form)
        {
            case 0: want = s(sa, a0) && s(sb, b0); wa++; wb++; break;
            case 1: want = s(sa, a0) || s(sb, b0); wa++; wb++; break;
            case 2: want = !s(sa, a0); wa++; break;
            case 3: want = !((s(sa, a0) && s(sb, b0)) || last); wa++; wb++; break;
            case 4: { bool o = s(sa, a0); wa++; if (!o) { o = s(sb, wb); wb++; } const bool n = !s(sb, wb); wb++; want = (o || last) && (n || last); break; }
        }
        const bool got = (*comp[form])(g);
        check(got == (want || last), "composite ", form, " in generation ", g.generation_cntr());
        check(ca == wa && (cb == wb || (form == 1 && want)), "composite ", form, ": the conditions were evaluated ", ca - a0, " and ", cb - b0, " times");
        if (form == 1 || form == 4) { /* short circuits are allowed in OR */ }
        drift += step;
        return seen > stopAt;
    });
    ga.stop_condition(std::move(lam));
    (void)ga.solve(Fit(len, nobj), gens);
    check(seen == std::min(gens, stopAt + 1) , "the run took ", seen, " generations, the stop condition was met after ", stopAt + 1, " of at most ", gens);
    check(ga.generation_cntr() + 1 == seen, "generation counter ", ga.generation_cntr(), " after ", seen, " generations");
}
int main(int argc, char** argv)
{
    setup_ga();
    return run(argc, argv, { { "runs", nullptr, runs, 1 } });
}
