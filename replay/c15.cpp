// Every metric tracked over real runs, compared in every generation with an independent computation from the fitness values the run showed.
#include "gah.hpp"
#include "metrics/metrics.hpp"
#include "metrics/pop_stats.hpp"
using namespace H;
namespace M = gapp::metrics;

static uint64_t mix(uint64_t h) { h ^= h >> 33; h *= 0xff51afd7ed558ccdULL; h ^= h >> 33; h *= 0xc4ceb9fe1a85ec53ULL; return h ^ (h >> 33); }
static uint64_t salt = 0; static size_t spread = 4; static std::atomic<size_t> calls = 0;
struct Fit final : FitnessFunctionBase<BinaryGene>
{
    size_t nobj;
    Fit(size_t len, size_t n, bool dyn) : FitnessFunctionBase<BinaryGene>(len, dyn ? Type::Dynamic : Type::Static), nobj(n) {}
    FitnessVector invoke(const Chromosome<BinaryGene>& c) const override
    {
        const size_t k = calls++;
        FitnessVector f; uint64_t h = salt + (is_dynamic() ? k : 0);
        for (auto g : c) h = mix(h * 2 + g + 1);
        for (size_t i = 0; i < nobj; i++) { h = mix(h + i); f.push_back(double(h % spread) - double(spread / 2)); }
        return f;
    }
};
// the volume of the union of the boxes between the reference point and the points (integer coordinates): counted cell by cell
static double volume(const FitnessMatrix& m, const std::vector<double>& ref)
{
    const size_t d = ref.size();
    std::vector<long> hi(d);
    for (size_t i = 0; i < d; i++) { double x = ref[i]; for (const auto& r : m) x = std::max(x, r[i]); hi[i] = long(x - ref[i]); }
    std::vector<long> c(d, 0); double v = 0;
    for (size_t i = 0; i < d; i++) if (hi[i] == 0) return 0;
    while (true)
    {
        for (const auto& r : m) { bool in = true; for (size_t i = 0; i < d; i++) in &= r[i] >= ref[i] + double(c[i]) + 1; if (in) { v += 1; break; } }
        size_t i = 0; while (i < d && ++c[i] == hi[i]) c[i++] = 0;
        if (i == d) return v;
    }
}
static bool close(double a, double b) { return std::abs(a - b) <= 1e-9 * (1 + std::abs(a) + std::abs(b)); }
static bool dominated(std::span<const double> a, std::span<const double> b) { bool less = false; for (size_t i = 0; i < a.size(); i++) { if (a[i] > b[i]) return false; less |= a[i] < b[i]; } return less; }

static void volumes()
{
    const size_t n = rnd(0, 7), d = rnd(1, 4), s = rnd(1, 5);
    begin("points=", n, " objectives=", d, " values=", s);
    FitnessMatrix m; std::vector<double> ref(d);
    for (double& x : ref) x = -double(rnd(0, 2));
    for (size_t i = 0; i < n; i++) { FitnessVector f; for (size_t k = 0; k < d; k++) f.push_back(double(rnd(0, s))); m.append_row(f); }
    std::string pts; for (const auto& r : m) { for (double x : r) pts += std::to_string(int(x)) + ","; pts += ";"; }
    const double v = n ? gapp::detail::hypervolume(m, ref) : 0.0, w = n ? volume(m, ref) : 0.0;
    check(close(v, w), "the hypervolume of ", pts, " is ", v, " instead of ", w);
}
template<typename T> static bool same(const T& a, const std::vector<double>& b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < b.size(); i++) if (!close(a[i], b[i])) return false; return true; }
static void runs()
{
    const size_t nobj = rnd(1, 3), pop = rnd(2, 12), gens = rnd(1, 8), len = rnd(2, 6), alg = nobj == 1 ? 0 : rnd(1, 2);
    const bool dyn = rnd(0, 1);
    const uint64_t seed = H::rng(); gapp::rng::prng.seed(seed);
    spread = rnd(1, 7); salt = H::rng();
    begin("population=", pop, " objectives=", nobj, " generations=", gens, " algorithm=", alg, " dynamic=", dyn, " spread=", spread, " seed=", seed);
    BinaryGA ga(pop);
    if (alg == 0) ga.algorithm(algorithm::SingleObjective{}); else if (alg == 1) ga.algorithm(algorithm::NSGA2{}); else ga.algorithm(algorithm::NSGA3{});
    const std::vector<double> ref(nobj, -double(spread));
    ga.track(M::FitnessMin{}, M::FitnessMax{}, M::FitnessMean{}, M::FitnessVariance{}, M::FitnessStdDev{}, M::NadirPoint{}, M::Hypervolume(FitnessVector(ref.begin(), ref.end())), M::AutoHypervolume{}, M::FitnessEvaluations{});
    std::vector<FitnessMatrix> all; size_t before = 0;
    const size_t stop = rnd(0, 2 * gens);
    ga.stop_condition([&](const GaInfo& g) { return g.generation_cntr() >= stop; });
    ga.on_generation_end([&](const GaInfo& g)
    {
        const auto& m = g.fitness_matrix(); const size_t k = all.size(), n = m.nrows(); all.push_back(m);
        const auto& mn = g.get_metric<M::FitnessMin>(); const auto& mx = g.get_metric<M::FitnessMax>();
        const auto& mean = g.get_metric<M::FitnessMean>(); const auto& var = g.get_metric<M::FitnessVariance>(); const auto& dev = g.get_metric<M::FitnessStdDev>();
        const auto& nad = g.get_metric<M::NadirPoint>(); const auto& hv = g.get_metric<M::Hypervolume>(); const auto& ahv = g.get_metric<M::AutoHypervolume>(); const auto& ev = g.get_metric<M::FitnessEvaluations>();
        check(g.generation_cntr() == k, "generation ", g.generation_cntr(), " is reported as the ", k, "-th");
        check(mn.size() == k + 1 && mx.size() == k + 1 && mean.size() == k + 1 && var.size() == k + 1 && dev.size() == k + 1 && nad.size() == k + 1 && hv.size() == k + 1 && ahv.size() == k + 1 && ev.size() == k + 1, "a metric does not have ", k + 1, " values in generation ", k);
        std::vector<double> lo(nobj, INFINITY), hi(nobj, -INFINITY), mu(nobj, 0.0), va(nobj, 0.0), sd(nobj, 0.0), na(nobj, INFINITY);
        for (const auto& r : m) for (size_t i = 0; i < nobj; i++) { lo[i] = std::min(lo[i], r[i]); hi[i] = std::max(hi[i], r[i]); mu[i] += r[i] / double(n); }
        if (n > 1) for (const auto& r : m) for (size_t i = 0; i < nobj; i++) va[i] += (r[i] - mu[i]) * (r[i] - mu[i]) / double(n - 1);
        for (size_t i = 0; i < nobj; i++) sd[i] = std::sqrt(va[i]);
        for (const auto& r : m) { bool dom = false; for (const auto& q : m) dom |= dominated(r, q); if (!dom) for (size_t i = 0; i < nobj; i++) na[i] = std::min(na[i], r[i]); }
        check(same(mn[k], lo), "FitnessMin in generation ", k); check(same(mx[k], hi), "FitnessMax in generation ", k); check(same(mean[k], mu), "FitnessMean in generation ", k);
        check(same(var[k], va), "FitnessVariance in generation ", k); check(same(dev[k], sd), "FitnessStdDev in generation ", k); check(same(nad[k], na), "NadirPoint in generation ", k);
        check(close(hv[k], volume(m, ref)), "Hypervolume in generation ", k, ": ", hv[k], " instead of ", volume(m, ref));
        std::vector<double> worst(nobj, INFINITY);
        for (const auto& f : all) for (const auto& r : f) for (size_t i = 0; i < nobj; i++) worst[i] = std::min(worst[i], r[i]);
        check(same(ahv.ref_point(), worst), "the reference point of AutoHypervolume in generation ", k);
        for (size_t j = 0; j <= k; j++) check(close(ahv[j], volume(all[j], worst)), "AutoHypervolume of generation ", j, " in generation ", k, ": ", ahv[j], " instead of ", volume(all[j], worst));
        check(g.num_fitness_evals() == calls.load() - before, "the number of evaluations in generation ", k, " is ", g.num_fitness_evals(), " instead of ", calls.load() - before);
        size_t sum = 0; for (size_t j = 0; j <= k; j++) sum += ev[j];
        check(sum == g.num_fitness_evals(), "FitnessEvaluations sum to ", sum, " instead of ", g.num_fitness_evals(), " in generation ", k);
        if (k > 0) { FitnessMatrix& p = all[k - 1]; std::vector<double> l0(nobj, INFINITY); for (const auto& r : p) for (size_t i = 0; i < nobj; i++) l0[i] = std::min(l0[i], r[i]); check(same(mn[k - 1], l0), "FitnessMin of the previous generation changed"); }
    });
    for (size_t run = rnd(1, 2); run > 0; run--)
    {
        all.clear();
        Fit f(len, nobj, dyn);
        // the number of objectives is found with one uncounted evaluation
        calls = 0; before = 1;
        ga.solve(std::move(f), gens);
        check(all.size() == std::min(gens, stop + 1), "the run has ", all.size(), " generations");
    }
}
int main(int argc, char** argv)
{
    setup_ga();
    return run(argc, argv, { { "volumes", nullptr, volumes, 2 }, { "runs", nullptr, runs, 1 } });
}
