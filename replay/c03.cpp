#include "gah.hpp"
using namespace H;
using namespace gapp::crossover;
using Ch = Chromosome<RealGene>;

struct Ctx { size_t nobj; BoundsVector<RealGene> b; std::unique_ptr<RCGA> ga; };
static Bounds<RealGene> rbounds()
{
    const double scale[] = { 1.0, 1e-3, 1e6, 1e-300, 1e-12, 1e100, 5e-324 };
    const double s = scale[rnd(0, 6)];
    double a = s * rreal(-1, 1), b = s * rreal(-1, 1);
    switch (rnd(0, 6))
    {
        case 0: b = a; break;
        case 1: b = std::nextafter(a, 1e300); break;
        case 2: a = 0.0; b = s; break;
        case 3: a = -s; b = s; break;
        case 4: a = 1e8; b = 1e8 + rreal(0, 1e-6); break;
        default: break;
    }
    if (a > b) std::swap(a, b);
    return { a, b };
}
static Ctx& make_ctx()
{
    static std::vector<Ctx> pool;
    if (pool.size() < 60 || coin(0.02))
    {
        const size_t n = coin(0.2) ? 1 : rnd(1, 8);
        Ctx c;
        c.nobj = coin(0.7) ? 1 : 2;
        for (size_t i = 0; i < n; i++) c.b.push_back(rbounds());
        c.ga = std::make_unique<RCGA>(Positive<size_t>{ 4 });
        c.ga->mutation_method(mutation::real::Boundary(0.0));
        c.ga->crossover_method(crossover::real::Arithmetic(0.0));
        c.ga->solve(FlatFitness<RealGene>(n, c.nobj), c.b, 1);
        if (pool.size() < 60) pool.push_back(std::move(c)); else { auto& x = pool[rnd(0, 59)]; x = std::move(c); return x; }
        return pool.back();
    }
    return pool[rnd(0, pool.size() - 1)];
}
static double rgene(const Bounds<RealGene>& b)
{
    switch (rnd(0, 4))
    {
        case 0: return b.lower();
        case 1: return b.upper();
        default: return std::clamp(b.lower() + rreal() * (b.upper() - b.lower()), b.lower(), b.upper());
    }
}

template<typename Op, typename F> void run_op(const Op& op, const std::string& nm, F&& structure)
{
    Ctx& c = make_ctx();
    const size_t n = c.b.size();
    Ch p1(n), p2(n);
    for (size_t i = 0; i < n; i++)
    {
        p1[i] = rgene(c.b[i]);
        p2[i] = coin(0.15) ? p1[i] : coin(0.1) ? std::clamp(std::nextafter(p1[i], coin() ? 1e300 : -1e300), c.b[i].lower(), c.b[i].upper()) : rgene(c.b[i]);
    }
    const size_t nobj = c.nobj;
    auto a = cand<RealGene>(p1), b = cand<RealGene>(p2);
    a.fitness.clear(); b.fitness.clear();
    for (size_t k = 0; k < nobj; k++) { a.fitness.push_back(double(irnd(0, 2))); b.fitness.push_back(double(irnd(0, 2))); }
    const size_t s = reseed();
    std::string bs;
    for (auto& x : c.b) bs += cat("[", x.lower(), ",", x.upper(), "]");
    begin(nm, " bounds=", bs, " p1=", p1, " p2=", p2, " f1=", a.fitness, " f2=", b.fitness, " seed=", s);
    auto [c1, c2] = op(*c.ga, a, b);
    check(a.chromosome == p1 && b.chromosome == p2, "parents modified");
    check(c1.chromosome.size() == n && c2.chromosome.size() == n, "child length");
    for (size_t i = 0; i < n; i++)
        for (auto* x : { &c1, &c2 })
            check(c.b[i].lower() <= x->chromosome[i] && x->chromosome[i] <= c.b[i].upper(), "gene ", i, " = ", x->chromosome[i], " outside of its bounds");
    bool same = true;   // parents that compare equal (up to the float tolerance) are returned as they are
    for (size_t i = 0; i < n; i++) same = same && math::floatIsEqual(p1[i], p2[i]);
    if (same && c1.chromosome == p1 && c2.chromosome == p2) return;
    structure(a, b, c1.chromosome, c2.chromosome, c.b);
}
static double tol(double a, double b, double f = 1.0) { return 1e-12 * f * (std::abs(a) + std::abs(b)) + 1e-322; }
using C = Candidate<RealGene>;
using BV = BoundsVector<RealGene>;

static void arithmetic()
{
    run_op(real::Arithmetic(1.0), "Arithmetic", [](const C& a, const C& b, const Ch& c1, const Ch& c2, const BV&)
    {
        double w = -1.0;
        for (size_t i = 0; i < c1.size(); i++)
        {
            const double x = a.chromosome[i], y = b.chromosome[i], lo = std::min(x, y), hi = std::max(x, y), t = tol(x, y);
            for (double g : { c1[i], c2[i] }) check(lo - t <= g && g <= hi + t, "gene ", i, " = ", g, " is not between the parents'");
            check(std::abs((c1[i] + c2[i]) - (x + y)) <= 4 * t, "gene ", i, ": the children are not complementary weighted averages ", c1[i], " ", c2[i]);
            if (hi - lo > 1e-3 * (std::abs(x) + std::abs(y)) && hi - lo > 1e-200)
            {
                const double wi = (c1[i] - y) / (x - y);
                check(w < 0.0 || std::abs(wi - w) < 1e-6, "gene ", i, ": weight ", wi, " differs from the other genes' ", w);
                if (w < 0.0) w = wi;
            }
        }
    });
}
static void blx()
{
    const double al = coin(0.2) ? 0.0 : coin(0.2) ? rreal(0, 50) : rreal(0, 1.5);
    run_op(real::BLXa(1.0, al), cat("BLXa(", al, ")"), [=](const C& a, const C& b, const Ch& c1, const Ch& c2, const BV&)
    {
        for (size_t i = 0; i < c1.size(); i++)
        {
            const double x = a.chromosome[i], y = b.chromosome[i], lo = std::min(x, y), hi = std::max(x, y), e = al * (hi - lo), t = tol(x, y, 1 + al);
            for (double g : { c1[i], c2[i] }) check(lo - e - t <= g && g <= hi + e + t, "gene ", i, " = ", g, " is outside of the extended interval of the parents'");
        }
    });
}
static void sbx()
{
    const double eta = coin(0.1) ? 0.0 : coin(0.1) ? rreal(0, 1000) : rreal(0, 6);
    run_op(real::SimulatedBinary(1.0, eta), cat("SimulatedBinary(", eta, ")"), [](const C& a, const C& b, const Ch& c1, const Ch& c2, const BV&)
    {
        for (size_t i = 0; i < c1.size(); i++)
        {
            const double x = a.chromosome[i], y = b.chromosome[i], mid = 0.5 * x + 0.5 * y, t = tol(x, y);
            if (x == y) check(c1[i] == x && c2[i] == x, "gene ", i, ": equal parent genes are not kept");
            else if (!math::floatIsEqual(x, y)) check(c1[i] <= mid + t && c2[i] >= mid - t, "gene ", i, ": children ", c1[i], " ", c2[i], " are not on their side of the parents' middle");
            else check(c1[i] == x && c2[i] == y, "gene ", i, ": equal parent genes are not kept");
        }
    });
}
static void wright()
{
    run_op(real::Wright(1.0), "Wright", [](const C& a, const C& b, const Ch& c1, const Ch& c2, const BV& bv)
    {
        bool worse = false, better = false;
        for (size_t k = 0; k < a.fitness.size(); k++) { worse |= a.fitness[k] < b.fitness[k]; better |= a.fitness[k] > b.fitness[k]; }
        const bool swap = worse && !better;
        const Ch& p = swap ? b.chromosome : a.chromosome;
        const Ch& q = swap ? a.chromosome : b.chromosome;
        double w[2] = { -1, -1 };
        for (size_t i = 0; i < c1.size(); i++)
        {
            const double d = p[i] - q[i], lo = std::min(p[i], p[i] + d), hi = std::max(p[i], p[i] + d), t = tol(p[i], q[i], 4);
            for (int j = 0; j < 2; j++)
            {
                const double g = j ? c2[i] : c1[i];
                check(std::clamp(lo, bv[i].lower(), bv[i].upper()) - t <= g && g <= std::clamp(hi, bv[i].lower(), bv[i].upper()) + t, "gene ", i, " = ", g, " is not on the better parent's side");
                if (std::abs(d) > 1e-3 * (std::abs(p[i]) + std::abs(q[i])) && std::abs(d) > 1e-200 && bv[i].lower() < g && g < bv[i].upper())
                {
                    const double wi = (g - p[i]) / d;
                    check(w[j] < 0.0 || std::abs(wi - w[j]) < 1e-6, "gene ", i, ": weight ", wi, " differs from the other genes' ", w[j]);
                    w[j] = wi;
                }
            }
        }
    });
}

int main(int argc, char** argv)
{
    setup_ga();
    return run(argc, argv, {
        { "arithmetic", nullptr, arithmetic },
        { "blxa", nullptr, blx },
        { "simulated_binary", nullptr, sbx },
        { "wright", nullptr, wright },
    });
}
