// Selection operators against reference distributions: the empirical frequencies of each operator are compared with probabilities computed independently in long double.
#include "gah.hpp"
using namespace H;
namespace S = gapp::selection;
using Vals = std::vector<double>;
using LD = long double;

static FitnessMatrix mat(const Vals& v) { FitnessMatrix f; f.reserve(v.size(), 1); for (double x : v) f.append_row(FitnessVector{ x }); return f; }
static std::vector<LD> norm(std::vector<LD> w)
{
    LD s = 0, m = 0;
    for (LD x : w) m = std::max(m, x);
    if (m == 0) return std::vector<LD>(w.size(), LD(1) / LD(w.size()));
    for (LD& x : w) { x /= m; s += x; }
    for (LD& x : w) x /= s;
    return w;
}
static std::vector<size_t> counts(const char* nm, S::Selection& op, const GaInfo& ga, const FitnessMatrix& f, size_t draws)
{
    std::vector<size_t> c(f.size(), 0);
    op.prepareSelectionsImpl(ga, f);
    for (size_t i = 0; i < draws; i++)
    {
        const size_t k = std::as_const(op).selectImpl(ga, f);
        check(k < f.size(), nm, " returned the index ", k, " for a population of ", f.size());
        c[k]++;
    }
    return c;
}
static void compare(const char* nm, S::Selection& op, const GaInfo& ga, const Vals& v, const std::vector<LD>& p, size_t draws)
{
    const auto m = mat(v);
    const auto c = counts(nm, op, ga, m, draws);
    for (size_t i = 0; i < v.size(); i++)
    {
        const LD sd = std::sqrt(LD(draws) * p[i] * (1 - p[i]));
        check(std::fabs(LD(c[i]) - LD(draws) * p[i]) <= 7 * sd + 12, nm, ": candidate ", i, " (fitness ", v[i], ") was selected ", c[i], " times of ", draws, ", expected ", double(LD(draws) * p[i]));
    }
}
static Vals vals(size_t n, int kind)
{
    Vals v(n);
    const double big = coin() ? 1e140 : 1e10, off = double(irnd(-20, 20));
    for (auto& x : v) switch (kind)
    {
        case 0: x = double(irnd(0, 9)); break;
        case 1: x = double(irnd(-9, 9)); break;
        case 2: x = rreal(-1, 1) * big; break;
        case 3: x = std::ldexp(double(irnd(0, 50)), -1074); break;
        case 4: x = off; break;
        case 5: x = rreal(0, 1) * std::exp2(double(irnd(-300, 300))); break;
        default: x = off + rreal(0, 1);
    }
    return v;
}
static LD mean_of(const Vals& v) { LD s = 0; for (double x : v) s += x; return s / LD(v.size()); }
static void all(const Vals& v, size_t draws)
{
    const size_t n = v.size();
    const double a = double(irnd(0, 20)) / 10, b = a + double(irnd(0, 20)) / 10, sc = double(irnd(1, 60)) / 10, T = coin() ? 0.2 : double(irnd(1, 80)) / 10;
    const size_t ts = size_t(irnd(1, long(n)));
    begin("fitness=", v, " rank_weights=", a, ",", b, " sigma_scale=", sc, " temperature=", T, " tournament=", ts);
    const GaInfo& ga = ctx<RealGene>(2);
    LD lo = v[0], hi = v[0];
    for (double x : v) { lo = std::min(lo, LD(x)); hi = std::max(hi, LD(x)); }
    {   // fitness proportional (the documented behaviour when no fitness value is negative); otherwise better candidates are not less likely
        S::Roulette op;
        if (lo >= 0) { std::vector<LD> w(v.begin(), v.end()); compare("Roulette", op, ga, v, norm(w), draws); }
        else
        {
            const auto c = counts("Roulette", op, ga, mat(v), draws);
            for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++)
                check(v[i] < v[j] || double(c[i]) + 7 * std::sqrt(double(c[i]) + double(c[j]) + 1) >= double(c[j]), "Roulette: the better candidate ", i, " was selected ", c[i], " times, candidate ", j, " ", c[j], " times");
        }
    }
    {
        std::vector<double> s(v); std::sort(s.begin(), s.end());
        bool ties = std::adjacent_find(s.begin(), s.end()) != s.end();
        S::Rank op(a, b);
        if (!ties)
        {
            std::vector<LD> w;
            for (double x : v) { LD r = LD(std::lower_bound(s.begin(), s.end(), x) - s.begin()); w.push_back(LD(a) + (LD(b) - LD(a)) * (n > 1 ? r / LD(n - 1) : 0)); }
            compare("Rank", op, ga, v, norm(w), draws);
        }
        else counts("Rank", op, ga, mat(v), 200);
    }
    if (n > 1)
    {
        const LD mu = mean_of(v);
        LD s2 = 0; for (double x : v) s2 += (x - mu) * (x - mu);
        const LD sd = std::sqrt(s2 / LD(n));           // the documentation says standard deviation; accept either estimator
        const LD sd1 = std::sqrt(s2 / LD(n - 1));
        S::Sigma op(sc);
        if (sd > LD(1e-290) && sd < LD(1e290) && sd > 1e-9L * std::fabs(mu))
        {
            std::vector<LD> w0, w1;
            for (double x : v) { w0.push_back(std::max(LD(0), 1 + (x - mu) / (sc * sd))); w1.push_back(std::max(LD(0), 1 + (x - mu) / (sc * sd1))); }
            const auto p0 = norm(w0), p1 = norm(w1);
            const auto c = counts("Sigma", op, ga, mat(v), draws);
            for (size_t i = 0; i < n; i++)
            {
                const LD l = std::min(p0[i], p1[i]), h = std::max(p0[i], p1[i]);
                check(LD(c[i]) >= LD(draws) * l - 7 * std::sqrt(LD(draws) * l) - 12 && LD(c[i]) <= LD(draws) * h + 7 * std::sqrt(LD(draws) * h) + 12, "Sigma: candidate ", i, " was selected ", c[i], " times of ", draws, ", expected ", double(LD(draws) * l), " to ", double(LD(draws) * h));
            }
        }
        else counts("Sigma", op, ga, mat(v), 200);
    }
    {
        S::Boltzmann op([T](size_t, size_t) { return T; });
        const LD df = hi - lo;
        if (df > std::numeric_limits<double>::min() && df > 1e-9L * std::max(std::fabs(lo), std::fabs(hi)))
        {
            std::vector<LD> w;
            for (double x : v) w.push_back(std::exp((x - lo) / df / T));
            compare("Boltzmann", op, ga, v, norm(w), draws);
        }
        else counts("Boltzmann", op, ga, mat(v), 200);
        S::Boltzmann dop;
        const auto c = counts("Boltzmann", dop, ga, mat(v), 500);
        for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++)
            check(v[i] < v[j] || double(c[i]) + 8 * std::sqrt(double(c[i]) + double(c[j]) + 1) >= double(c[j]), "Boltzmann (default temperature): the better candidate ", i, " was selected ", c[i], " times, candidate ", j, " ", c[j], " times");
    }
    {   // the best of ts uniform draws: P(value <= x) = (number of candidates <= x / n)^ts
        S::Tournament op(ts);
        const auto c = counts("Tournament", op, ga, mat(v), draws);
        for (size_t i = 0; i < n; i++)
        {
            LD le = 0, lt = 0; size_t obs = 0;
            for (size_t j = 0; j < n; j++) { le += v[j] <= v[i]; lt += v[j] < v[i]; if (v[j] == v[i]) obs += c[j]; }
            const LD p = std::pow(le / LD(n), LD(ts)) - std::pow(lt / LD(n), LD(ts));
            check(std::fabs(LD(obs) - LD(draws) * p) <= 7 * std::sqrt(LD(draws) * p * (1 - p)) + 12, "Tournament(", ts, "): candidates of fitness ", v[i], " were selected ", obs, " times of ", draws, ", expected ", double(LD(draws) * p));
        }
    }
}

int main(int argc, char** argv)
{
    setup_ga();
    return run(argc, argv, {
        { "frequencies", [] {
            all({ 5.0 }, 300); all({ 0.0 }, 300); all({ -3.0 }, 300);
            for (int k = 0; k < 7; k++) { reseed(); all(vals(2, k), 20000); all(vals(6, k), 20000); }
          },
          [] { reseed(); all(vals(rnd(1, 10), int(irnd(0, 6))), 6000); }, 2.0 },
    });
}
