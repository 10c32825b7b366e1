#include "gah.hpp"
#include "core/population.hpp"
using namespace H;
namespace D = gapp::detail;
using Mat = FitnessMatrix;

static double val(int kind)
{
    switch (kind)
    {
        case 0: return double(irnd(0, 2));
        case 1: return double(irnd(-4, 4));
        case 2: return coin(0.1) ? (coin() ? 1e300 : -1e300) : double(irnd(-20, 20)) / 8;
        case 3: { const double v = double(irnd(-3, 3)); return coin(0.15) ? v / 0.0 * (v == 0 ? 0 : 1) : v; }
        default: return std::ldexp(double(irnd(-100, 100)), int(irnd(-10, 30)));
    }
}
static std::vector<std::vector<double>> rows(size_t n, size_t m, int kind)
{
    std::vector<std::vector<double>> r(n, std::vector<double>(m));
    for (auto& x : r) for (auto& v : x) { v = val(kind); if (std::isnan(v)) v = 0; }
    if (n > 1 && coin(0.3)) r[rnd(0, n - 1)] = r[rnd(0, n - 1)];
    return r;
}
static Mat mat(const std::vector<std::vector<double>>& r, size_t m)
{
    Mat f; f.reserve(r.size(), m);
    for (const auto& x : r) f.append_row(FitnessVector(x.begin(), x.end()));
    return f;
}
// separated values: classical dominance (a is dominated by b)
static bool worse(const std::vector<double>& a, const std::vector<double>& b)
{
    bool lt = false;
    for (size_t i = 0; i < a.size(); i++) { if (a[i] > b[i]) return false; lt = lt || a[i] < b[i]; }
    return lt;
}
static std::vector<size_t> brute(const std::vector<std::vector<double>>& r)
{
    std::vector<size_t> out;
    for (size_t i = 0; i < r.size(); i++)
    {
        bool d = false;
        for (const auto& y : r) d = d || worse(r[i], y);
        if (!d) out.push_back(i);
    }
    return out;
}
template<typename V> static std::vector<size_t> sorted(const V& v) { std::vector<size_t> x(v.begin(), v.end()); std::sort(x.begin(), x.end()); return x; }

static void fronts(const std::vector<std::vector<double>>& r, size_t m)
{
    const Mat f = mat(r, m);
    const auto want = brute(r);
    begin("rows=", r);
    check(sorted(D::findParetoFront(f)) == want, "findParetoFront = ", sorted(D::findParetoFront(f)), " expected ", want);
    if (!r.empty())
    {
        if (m == 1) check(sorted(D::findParetoFront1D(f)) == want, "findParetoFront1D = ", sorted(D::findParetoFront1D(f)), " expected ", want);
        check(sorted(D::findParetoFrontSort(f)) == want, "findParetoFrontSort = ", sorted(D::findParetoFrontSort(f)), " expected ", want);
        check(sorted(D::findParetoFrontBest(f)) == want, "findParetoFrontBest = ", sorted(D::findParetoFrontBest(f)), " expected ", want);
        if (m > 1) check(sorted(D::findParetoFrontKung(f)) == want, "findParetoFrontKung = ", sorted(D::findParetoFrontKung(f)), " expected ", want);
    }
    std::vector<double> nf, na;
    for (size_t c = 0; c < m && !r.empty(); c++)
    {
        double a = r[0][c], b = r[want[0]][c];
        for (const auto& x : r) a = std::min(a, x[c]);
        for (size_t i : want) b = std::min(b, r[i][c]);
        na.push_back(a); nf.push_back(b);
    }
    const auto gn = D::findNadirPoint(f), gf = D::findFrontNadirPoint(f);
    check(std::equal(gn.begin(), gn.end(), nf.begin(), nf.end()), "findNadirPoint = ", gn, " expected ", nf);
    check(std::equal(gf.begin(), gf.end(), na.begin(), na.end()), "findFrontNadirPoint = ", gf, " expected ", na);
    const size_t a = r.empty() ? 0 : rnd(0, r.size()), b = r.empty() ? 0 : rnd(a, r.size());
    const auto fv = D::toFitnessVector(f.begin() + a, f.begin() + b);
    check(fv.size() == b - a, "toFitnessVector size ", fv.size());
    for (size_t i = a; i < b; i++) check(fv[i - a] == r[i][0], "toFitnessVector [", i - a, "] = ", fv[i - a]);
}
static Population<RealGene> pop_of(const std::vector<std::vector<double>>& r, double base)
{
    Population<RealGene> p;
    for (size_t i = 0; i < r.size(); i++)
    {
        Candidate<RealGene> c(Chromosome<RealGene>{ base + double(i) });   // the gene identifies the candidate
        c.fitness = FitnessVector(r[i].begin(), r[i].end());
        c.is_evaluated = true;
        p.push_back(c);
    }
    return p;
}
static std::vector<double> ids(const Population<RealGene>& p) { std::vector<double> v; for (const auto& c : p) v.push_back(c.chromosome.empty() ? -1 : c.chromosome[0]); std::sort(v.begin(), v.end()); return v; }
static void pops(const std::vector<std::vector<double>>& r)
{
    begin("fitness=", r);
    const auto p = pop_of(r, 0);
    const Mat f = D::toFitnessMatrix(p);
    check(f.nrows() == r.size(), "toFitnessMatrix has ", f.nrows(), " rows");
    for (size_t i = 0; i < r.size(); i++) for (size_t j = 0; j < r[i].size(); j++) check(f(i, j) == r[i][j], "toFitnessMatrix(", i, ",", j, ") = ", f(i, j));
    std::vector<double> want;
    for (size_t i : brute(r)) want.push_back(double(i));
    const auto got = D::findParetoFront(p);
    check(ids(got) == want, "findParetoFront(population) = ", ids(got), " expected ", want);
    for (const auto& c : got) check(c.is_evaluated && std::equal(c.fitness.begin(), c.fitness.end(), r[size_t(c.chromosome[0])].begin(), r[size_t(c.chromosome[0])].end()), "candidate changed by the selection");
}
static void merge(std::vector<std::vector<double>> a, std::vector<std::vector<double>> b)
{
    auto keep = [](std::vector<std::vector<double>>& x) { std::vector<std::vector<double>> y; for (size_t i : brute(x)) y.push_back(x[i]); x = y; };
    keep(a); keep(b);
    begin("lhs=", a, " rhs=", b);
    std::vector<double> want;
    for (size_t i = 0; i < a.size(); i++) if (std::none_of(b.begin(), b.end(), [&](auto& y) { return worse(a[i], y); })) want.push_back(double(i));
    for (size_t i = 0; i < b.size(); i++) if (std::none_of(a.begin(), a.end(), [&](auto& y) { return worse(b[i], y); })) want.push_back(1000.0 + double(i));
    const auto got = D::mergeParetoSets(pop_of(a, 0), pop_of(b, 1000));
    check(ids(got) == want, "mergeParetoSets = ", ids(got), " expected ", want);
    for (const auto& c : got)
    {
        const double id = c.chromosome[0];
        const auto& src = id >= 1000 ? b[size_t(id - 1000)] : a[size_t(id)];
        check(std::equal(c.fitness.begin(), c.fitness.end(), src.begin(), src.end()), "candidate changed by the merge");
    }
}
int main(int argc, char** argv)
{
    gapp::execution_threads(4);
    auto ex = [](auto f) { return [f] {
        // every matrix of up to 4 rows with 1 or 2 columns over {0,1,2}, up to 3 rows with 3 columns over {0,1}
        for (size_t m = 1; m <= 3; m++) for (size_t n = 0; n <= (m == 3 ? 3u : m == 2 ? 4u : 5u); n++)
        {
            const size_t base = m == 3 ? 2 : 3; size_t tot = 1;
            for (size_t i = 0; i < n * m; i++) tot *= base;
            for (size_t c = 0; c < tot; c++)
            {
                std::vector<std::vector<double>> r(n, std::vector<double>(m)); size_t k = c;
                for (auto& x : r) for (auto& v : x) { v = double(k % base); k /= base; }
                f(r, m);
            }
        } }; };
    auto rn = [](size_t cap) { return coin(0.7) ? rnd(1, 8) : rnd(1, cap); };
    return run(argc, argv, {
        { "fronts", ex([](auto& r, size_t m) { fronts(r, m); }), [=] { const size_t m = rnd(1, 5); fronts(rows(rn(60), m, int(rnd(0, 4))), m); } },
        { "populations", ex([](auto& r, size_t) { pops(r); }), [=] { const size_t m = rnd(1, 4); pops(rows(rn(40), m, int(rnd(0, 4)))); } },
        { "merge", ex([](auto& r, size_t m) { for (size_t k = 0; k <= r.size(); k++) { merge({ r.begin(), r.begin() + long(k) }, { r.begin() + long(k), r.end() }); } (void)m; }),
          [=] { const size_t m = rnd(1, 4); const int kd = int(rnd(0, 4)); merge(rows(rn(30), m, kd), rows(rn(30), m, kd)); }, 2.0 },
    });
}
