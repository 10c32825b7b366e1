#include "gah.hpp"
using namespace H;
namespace R = gapp::replacement;
using Vals = std::vector<double>;

static double val(int kind)
{
    switch (kind)
    {
        case 0: return double(irnd(0, 2));
        case 1: return double(irnd(-6, 6));
        case 2: return coin(0.1) ? (coin() ? 1e300 : -1e300) : double(irnd(-20, 20)) / 8;
        case 3: return coin(0.1) ? (coin() ? INFINITY : -INFINITY) : double(irnd(-3, 3));
        default: return std::ldexp(double(irnd(-100, 100)), int(irnd(-10, 30)));
    }
}
static Vals vals(size_t n, int kind) { Vals v(n); for (auto& x : v) x = val(kind); return v; }
static FitnessMatrix mat(const Vals& v) { FitnessMatrix f; f.reserve(v.size(), 1); for (double x : v) f.append_row(FitnessVector{ x }); return f; }
static RCGA& ga_of(size_t n)
{
    static std::map<size_t, std::unique_ptr<RCGA>> m;
    auto& p = m[n];
    if (!p) { p = std::make_unique<RCGA>(Positive<size_t>{ n }); p->solve(FlatFitness<RealGene>(1), Bounds<RealGene>{ -1.0, 1.0 }, 1); }
    return *p;
}
using Idx = std::vector<size_t>;
static Idx run_policy(R::Replacement& r, RCGA& ga, const FitnessMatrix& f) { auto v = r.nextPopulationImpl(ga, f); return Idx(v.begin(), v.end()); }
static void unique(const char* nm, const Idx& v, size_t n, size_t total)
{
    check(v.size() == n, nm, " returns ", v.size(), " indices: ", v);
    std::set<size_t> s(v.begin(), v.end());
    check(s.size() == v.size() && *s.rbegin() < total, nm, ": repeated or invalid index: ", v);
}
static void policies(const Vals& f, size_t n, size_t e)
{
    begin("population_size=", n, " elites=", e, " fitness=", f);
    RCGA& ga = ga_of(n);
    const auto m = mat(f);
    R::KeepChildren kc; R::Elitism el(e); R::KeepBest kb;
    const Idx a = run_policy(kc, ga, m), b = run_policy(el, ga, m), c = run_policy(kb, ga, m);
    unique("KeepChildren", a, n, f.size());
    for (size_t i = 0; i < n; i++) check(a[i] == n + i, "KeepChildren: ", a);
    unique("Elitism", b, n, f.size());
    const size_t ec = std::min(e, n);
    for (size_t i = 0; i < ec; i++)
    {
        check(b[i] < n, "Elitism: elite ", i, " is not a parent: ", b);
        for (size_t p = 0; p < n; p++) check(f[p] <= f[b[i]] || std::find(b.begin(), b.begin() + long(ec), p) != b.begin() + long(ec), "Elitism: parent ", p, " is better than the elite ", b[i], ": ", b);
    }
    for (size_t i = ec; i < n; i++) check(b[i] == n + i - ec, "Elitism: slot ", i, " is not the next child: ", b);
    unique("KeepBest", c, n, f.size());
    for (size_t i = 0; i < n; i++)
    {
        check(i == 0 || f[c[i - 1]] >= f[c[i]], "KeepBest: not best first: ", c);
        for (size_t p = 0; p < f.size(); p++) check(f[p] <= f[c[i]] || std::find(c.begin(), c.end(), p) != c.end(), "KeepBest: ", p, " is better than ", c[i], ": ", c);
    }
}
static Population<RealGene> pop_of(const Vals& f, double base)
{
    Population<RealGene> p;
    for (size_t i = 0; i < f.size(); i++) { auto c = cand(Chromosome<RealGene>{ base + double(i) }, f[i]); p.push_back(c); }
    return p;
}
static void next_population()
{
    const size_t n = rnd(1, 12), k = n + rnd(0, 3);
    const Vals f = vals(n, 1), g = vals(k, 1);
    const int pol = int(rnd(0, 3));
    const size_t e = rnd(0, n + 1);
    Idx perm(n + k); std::iota(perm.begin(), perm.end(), 0); std::shuffle(perm.begin(), perm.end(), H::rng); perm.resize(n);
    begin("parents=", f, " children=", g, " policy=", pol, " elites=", e, " lambda=", perm);
    RCGA& ga = ga_of(n);
    std::unique_ptr<algorithm::SingleObjective> a;
    if (pol == 0) a = std::make_unique<algorithm::SingleObjective>(selection::Roulette{}, R::KeepChildren{});
    else if (pol == 1) a = std::make_unique<algorithm::SingleObjective>(selection::Roulette{}, R::Elitism{ e });
    else if (pol == 2) a = std::make_unique<algorithm::SingleObjective>(selection::Roulette{}, R::KeepBest{});
    else a = std::make_unique<algorithm::SingleObjective>([](const GaInfo&, const FitnessMatrix&) { return 0_sz; }, [&](const GaInfo&, const FitnessMatrix&) { return small_vector<size_t>(perm.begin(), perm.end()); });
    Vals all = f; all.insert(all.end(), g.begin(), g.end());
    const auto next = static_cast<algorithm::Algorithm&>(*a).nextPopulation(ga, pop_of(f, 0), pop_of(g, double(n)));
    check(next.size() == n, "the next population has ", next.size(), " candidates");
    std::set<size_t> ids;
    for (size_t i = 0; i < n; i++)
    {
        const auto& c = next[i];
        check(c.chromosome.size() == 1 && c.is_evaluated && c.fitness.size() == 1, "candidate ", i, " of the next population is not intact");
        const size_t id = size_t(c.chromosome[0]);
        check(id < all.size() && c.fitness[0] == all[id], "candidate ", i, " has the fitness ", c.fitness[0], " of another one");
        check(ids.insert(id).second, "candidate ", id, " is selected twice");
        if (pol == 3) check(id == perm[i], "slot ", i, " holds ", id, " instead of ", perm[i]);
    }
    const double best = *std::max_element(all.begin(), all.end()), pbest = *std::max_element(f.begin(), f.end());
    double nb = -INFINITY; for (auto& c : next) nb = std::max(nb, c.fitness[0]);
    if (pol == 2) check(nb == best, "KeepBest loses the best candidate");
    if (pol == 1 && e) check(nb >= pbest, "Elitism loses the best parent");
}
struct Rough final : FitnessFunctionBase<RealGene>
{
    int k;
    explicit Rough(size_t n, int kk) : FitnessFunctionBase<RealGene>(n), k(kk) {}
    FitnessVector invoke(const Chromosome<RealGene>& c) const override { double s = 0; for (double x : c) s += k ? std::floor(4 * x) : std::sin(7 * x) + x; return { s }; }
};
static void runs()
{
    const size_t n = rnd(1, 12), len = rnd(1, 4), e = rnd(1, n), gens = rnd(2, 12);
    const bool best = coin();
    const int kind = int(rnd(0, 1));
    const size_t seed = reseed();
    begin("run: population_size=", n, " len=", len, " gens=", gens, best ? " KeepBest" : " Elitism", e, " fitness kind=", kind, " seed=", seed);
    RCGA ga(n);
    if (best) ga.algorithm(algorithm::SingleObjective{ selection::Tournament{ 1 }, R::KeepBest{} });
    else ga.algorithm(algorithm::SingleObjective{ selection::Tournament{ 1 }, R::Elitism{ e } });
    double last = -INFINITY;
    ga.on_generation_end([&](const GaInfo& g)
    {
        const auto& m = g.fitness_matrix();
        check(m.size() == n, "generation ", g.generation_cntr(), " has ", m.size(), " candidates");
        double b = -INFINITY; for (size_t i = 0; i < m.size(); i++) b = std::max(b, m(i, 0));
        check(b >= last, "the best fitness drops from ", last, " to ", b, " in generation ", g.generation_cntr());
        last = b;
    });
    ga.solve(Rough(len, kind), Bounds<RealGene>{ -2.0, 2.0 }, gens);
}
int main(int argc, char** argv)
{
    setup_ga();
    return run(argc, argv, {
        { "policies", [] {
            for (size_t n = 1; n <= 3; n++)
            {
                size_t tot = 1; for (size_t i = 0; i < 2 * n; i++) tot *= 3;
                for (size_t c = 0; c < tot; c++) { Vals f(2 * n); size_t k = c; for (auto& x : f) { x = double(k % 3); k /= 3; } for (size_t e = 0; e <= n + 1; e++) policies(f, n, e); }
            } },
          [] { const size_t n = coin(0.7) ? rnd(1, 10) : rnd(1, 80); policies(vals(2 * n + (coin(0.3) ? rnd(0, 3) : 0), int(rnd(0, 4))), n, coin(0.2) ? rnd(0, 200) : rnd(0, n)); }, 2.0 },
        { "next_population", nullptr, next_population },
        { "runs", nullptr, runs },
    });
}
