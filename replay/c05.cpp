#include "gah.hpp"
using namespace H;
using namespace gapp::mutation;

static double rpm() { const double p[] = { 0.0, 1.0, 1.0, 0.5, 0.1, 1e-12 }; return coin(0.8) ? p[rnd(0, 5)] : rreal(); }

template<typename Op, typename Tp> static Chromosome<Tp> mutated(const Op& op, const typename GaOf<Tp>::type& ga, const Chromosome<Tp>& c)
{
    Candidate<Tp> x{ c };
    if (coin()) x = cand<Tp>(c);
    op(ga, x);
    return x.chromosome;
}
// ------------------------------------------------------------ binary
static void flip()
{
    const size_t n = coin(0.1) ? rnd(20, 400) : rnd(1, 10);
    Chromosome<BinaryGene> c(n);
    for (auto& g : c) g = coin();
    const double pm = rpm();
    const size_t s = reseed();
    begin("Flip pm=", pm, " seed=", s, " chromosome=", c);
    const auto m = mutated(binary::Flip(pm), ctx<BinaryGene>(n), c);
    g_case += cat(" mutated=", m);
    check(m.size() == n, "length changed to ", m.size());
    for (size_t i = 0; i < n; i++) check(m[i] == 0 || m[i] == 1, "gene ", i, " is not binary");
    if (pm == 0.0) check(m == c, "mutated with rate 0");
    if (pm == 1.0) for (size_t i = 0; i < n; i++) check(m[i] == 1 - c[i], "gene ", i, " was not flipped with rate 1");
}
// ------------------------------------------------------------ integer
struct ICtx { BoundsVector<IntegerGene> b; std::unique_ptr<IntegerGA> ga; };
static ICtx& ictx()
{
    static std::vector<ICtx> pool;
    if (pool.size() < 60)
    {
        ICtx c;
        const size_t n = coin(0.1) ? rnd(20, 100) : rnd(1, 8);
        for (size_t i = 0; i < n; i++)
        {
            const long w[] = { 0, 1, 2, 10, 1000000, 4000000000000000000 };
            const long lo = coin(0.1) ? std::numeric_limits<long>::min() : irnd(-1000, 1000);
            c.b.push_back({ lo, lo + w[rnd(0, 5)] });
        }
        c.ga = std::make_unique<IntegerGA>(Positive<size_t>{ 4 });
        c.ga->mutation_method(integer::Uniform(0.0));
        c.ga->solve(FlatFitness<IntegerGene>(n, 1), c.b, 1);
        pool.push_back(std::move(c));
        return pool.back();
    }
    return pool[rnd(0, pool.size() - 1)];
}
static void int_uniform()
{
    ICtx& k = ictx();
    const size_t n = k.b.size();
    Chromosome<IntegerGene> c(n);
    for (size_t i = 0; i < n; i++) c[i] = coin(0.2) ? k.b[i].lower() : coin(0.2) ? k.b[i].upper() : irnd(k.b[i].lower(), k.b[i].upper());
    const double pm = rpm();
    const size_t s = reseed();
    begin("integer::Uniform pm=", pm, " seed=", s, " chromosome=", c, " lower=");
    for (auto& b : k.b) g_case += cat(b.lower(), ",");
    g_case += " upper=";
    for (auto& b : k.b) g_case += cat(b.upper(), ",");
    const auto m = mutated(integer::Uniform(pm), *k.ga, c);
    g_case += cat(" mutated=", m);
    check(m.size() == n, "length changed to ", m.size());
    for (size_t i = 0; i < n; i++) check(k.b[i].lower() <= m[i] && m[i] <= k.b[i].upper(), "gene ", i, " = ", m[i], " is out of its bounds");
    if (pm == 0.0) check(m == c, "mutated with rate 0");
    if (pm == 1.0) for (size_t i = 0; i < n; i++) check(m[i] != c[i] || k.b[i].lower() == k.b[i].upper(), "gene ", i, " did not change with rate 1");
}
// ------------------------------------------------------------ real
struct RCtx { BoundsVector<RealGene> b; std::unique_ptr<RCGA> ga; };
static Bounds<RealGene> rbounds()
{
    const double scale[] = { 1.0, 1e-3, 1e6, 1e-300, 1e-12, 1e100, 5e-324 };
    const double s = scale[rnd(0, 6)];
    double a = s * rreal(-1, 1), b = s * rreal(-1, 1);
    switch (rnd(0, 6))
    {
        case 0: b = a; break;
        case 1: b = std::nextafter(a, 1e300); break;
        case 2: a = 0.0; b = s; break;
        case 3: a = -s; b = s; break;
        case 4: a = 1e8; b = 1e8 + rreal(0, 1e-6); break;
        default: break;
    }
    if (a > b) std::swap(a, b);
    return { a, b };
}
static RCtx& rctx()
{
    static std::vector<RCtx> pool;
    if (pool.size() < 60)
    {
        RCtx c;
        const size_t n = coin(0.1) ? rnd(20, 60) : rnd(1, 8);
        for (size_t i = 0; i < n; i++) c.b.push_back(rbounds());
        c.ga = std::make_unique<RCGA>(Positive<size_t>{ 4 });
        c.ga->mutation_method(real::Boundary(0.0));
        c.ga->crossover_method(crossover::real::Arithmetic(0.0));
        const size_t gens = rnd(1, 5);
        c.ga->solve(FlatFitness<RealGene>(n, 1), c.b, gens);
        c.ga->max_gen(coin(0.4) ? gens : gens + rnd(0, 100));
        pool.push_back(std::move(c));
        return pool.back();
    }
    return pool[rnd(0, pool.size() - 1)];
}
template<typename Mk, typename Ck> static void run_real(const char* nm, double par, Mk&& mk, Ck&& ck)
{
    RCtx& k = rctx();
    const size_t n = k.b.size();
    Chromosome<RealGene> c(n);
    for (size_t i = 0; i < n; i++)
    {
        const auto& b = k.b[i];
        c[i] = coin(0.2) ? b.lower() : coin(0.2) ? b.upper() : std::clamp(b.lower() + rreal() * (b.upper() - b.lower()), b.lower(), b.upper());
    }
    const double pm = rpm();
    const size_t s = reseed();
    begin("real::", nm, " pm=", pm, " parameter=", par, " seed=", s, " generation=", k.ga->generation_cntr(), "/", k.ga->max_gen(), " chromosome=", c, " lower=");
    for (auto& b : k.b) g_case += cat(b.lower(), ",");
    g_case += " upper=";
    for (auto& b : k.b) g_case += cat(b.upper(), ",");
    const auto m = mutated(mk(pm, par), *k.ga, c);
    g_case += cat(" mutated=", m);
    check(m.size() == n, "length changed to ", m.size());
    for (size_t i = 0; i < n; i++) check(k.b[i].lower() <= m[i] && m[i] <= k.b[i].upper(), "gene ", i, " = ", m[i], " is not a number within its bounds");
    if (pm == 0.0) check(m == c, "mutated with rate 0");
    ck(k, c, m, pm);
}
static double rpar() { const double p[] = { 0.0, 1.0, 2.0, 40.0, 1e3, 1e-3 }; return coin(0.7) ? p[rnd(0, 5)] : rreal(0, 100); }
static void uniform() { run_real("Uniform", 0, [](double p, double) { return real::Uniform(p); }, [](auto&...) {}); }
static void nonuniform()
{
    run_real("NonUniform", rpar(), [](double p, double q) { return real::NonUniform(p, q); }, [](auto&...) {});
}
static void gauss() { run_real("Gauss", std::max(rpar(), 1e-6), [](double p, double q) { return real::Gauss(p, q); }, [](auto&...) {}); }
static void polynomial() { run_real("Polynomial", rpar(), [](double p, double q) { return real::Polynomial(p, q); }, [](auto&...) {}); }
static void boundary()
{
    run_real("Boundary", 0, [](double p, double) { return real::Boundary(p); }, [](RCtx& k, const auto& c, const auto& m, double pm)
    {
        for (size_t i = 0; i < c.size(); i++)
        {
            const bool on = m[i] == k.b[i].lower() || m[i] == k.b[i].upper();
            check(on || (m[i] == c[i] && pm < 1.0), "gene ", i, " = ", m[i], " is neither a bound nor the old gene");
        }
    });
}
int main(int argc, char** argv)
{
    setup_ga();
    return run(argc, argv, { { "binary_flip", nullptr, flip }, { "integer_uniform", nullptr, int_uniform }, { "real_uniform", nullptr, uniform }, { "real_nonuniform", nullptr, nonuniform },
                             { "real_gauss", nullptr, gauss }, { "real_polynomial", nullptr, polynomial }, { "real_boundary", nullptr, boundary } });
}
