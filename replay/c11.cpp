// Harness for C11: the real NSGA-II and NSGA-III on populations against direct definitions.
#include "gah.hpp"
#include "algorithm/nsga3.cpp"
using namespace H;
namespace G = gapp::algorithm;
using Vec = std::vector<double>;
using Mat = std::vector<Vec>;
using Idx = std::vector<size_t>;

static FitnessMatrix mat(const Mat& v) { FitnessMatrix f; f.reserve(v.size(), v[0].size()); for (auto& r : v) f.append_row(r); return f; }
static bool worse(const Vec& a, const Vec& b) { bool s = false; for (size_t i = 0; i < a.size(); i++) { if (a[i] > b[i]) return false; if (a[i] < b[i]) s = true; } return s; }
static Idx ranks_of(const Mat& m)
{
    Idx r(m.size(), size_t(-1));
    size_t done = 0, k = 0;
    while (done < m.size())
    {
        Idx now;
        for (size_t i = 0; i < m.size(); i++)
            if (r[i] == size_t(-1))
            {
                bool dom = false;
                for (size_t j = 0; j < m.size() && !dom; j++) dom = r[j] == size_t(-1) && worse(m[i], m[j]);
                if (!dom) now.push_back(i);
            }
        for (size_t i : now) r[i] = k;
        done += now.size(); k++;
    }
    return r;
}
// crowding distances of a front; false: the definition is ambiguous because of equal values
static bool crowding(const Mat& m, const Idx& front, std::map<size_t, double>& d)
{
    for (size_t i : front) d[i] = 0.0;
    for (size_t o = 0; o < m[0].size(); o++)
    {
        Idx s = front;
        std::sort(s.begin(), s.end(), [&](size_t a, size_t b) { return m[a][o] < m[b][o]; });
        for (size_t i = 1; i < s.size(); i++) if (m[s[i - 1]][o] == m[s[i]][o]) return false;
        const double w = std::max(m[s.back()][o] - m[s[0]][o], 1e-8);
        d[s[0]] = d[s.back()] = INFINITY;
        for (size_t i = 1; i + 1 < s.size(); i++) d[s[i]] += (m[s[i + 1]][o] - m[s[i - 1]][o]) / w;
    }
    return true;
}
static bool near(double a, double b) { return a == b || std::abs(a - b) <= 1e-9 * (1 + std::abs(a) + std::abs(b)); }
static RCGA& ga_of(size_t n, size_t nobj)
{
    static std::map<std::pair<size_t, size_t>, std::unique_ptr<RCGA>> m;
    auto& p = m[{ n, nobj }];
    if (!p) { p = std::make_unique<RCGA>(Positive<size_t>{ n }); p->solve(FlatFitness<RealGene>(1, nobj), Bounds<RealGene>{ -1.0, 1.0 }, 1); }
    return *p;
}
static Mat rows(size_t n, size_t nobj, int kind)
{
    Mat m(n, Vec(nobj));
    for (size_t i = 0; i < n; i++)
    {
        for (auto& x : m[i]) x = kind == 0 ? double(irnd(0, 3)) : kind == 1 ? double(irnd(-50, 50)) : rreal(-4, 4);
        if (kind == 3) { double s = 0; for (auto& x : m[i]) { x = std::abs(x) + 1e-3; s += x; } for (auto& x : m[i]) x = x / s * (coin(0.3) ? 1 : 0.7); }
        if (kind == 4) { for (size_t j = 1; j < nobj; j++) m[i][j] = 0; m[i][0] = double(i); m[i][nobj - 1] = -double(i); } // one long front
    }
    return m;
}
template<class A> static Idx select_next(const char* nm, A& a, RCGA& ga, const Mat& m, size_t n, const Idx& rank)
{
    const auto r = a.nextPopulationImpl(ga, mat(m));
    Idx v(r.begin(), r.end());
    check(v.size() == n, nm, ": the next population has ", v.size(), " candidates");
    std::set<size_t> s(v.begin(), v.end());
    check(s.size() == n && *s.rbegin() < m.size(), nm, ": repeated or invalid candidate: ", v);
    size_t worst = 0;
    for (size_t i : v) worst = std::max(worst, rank[i]);
    for (size_t i = 0; i < m.size(); i++) check(rank[i] >= worst || s.count(i), nm, ": candidate ", i, " of rank ", rank[i], " is left out, one of rank ", worst, " is kept: ", v);
    return v;
}
template<class A> static void optimal(const char* nm, A& a, RCGA& ga, const Idx& rank)
{
    const auto o = a.optimalSolutionsImpl(ga);
    Idx want;
    for (size_t i = 0; i < rank.size(); i++) if (rank[i] == 0) want.push_back(i);
    Idx got(o.begin(), o.end()); std::sort(got.begin(), got.end());
    check(got == want, nm, ": optimal solutions ", got, " instead of the non-dominated ones ", want);
}
static Idx split_front(const Idx& v, const Idx& rank, Idx& chosen, Idx& left)
{
    size_t worst = 0; for (size_t i : v) worst = std::max(worst, rank[i]);
    std::set<size_t> s(v.begin(), v.end());
    Idx front;
    for (size_t i = 0; i < rank.size(); i++) if (rank[i] == worst) { front.push_back(i); (s.count(i) ? chosen : left).push_back(i); }
    return front;
}
static void picks(const char* nm, const std::function<size_t()>& f, const Vec& prob)
{
    const size_t N = 3000;
    Vec c(prob.size(), 0);
    for (size_t k = 0; k < N; k++) { const size_t i = f(); check(i < prob.size(), nm, ": selected index ", i); c[i]++; }
    for (size_t i = 0; i < prob.size(); i++) check(std::abs(c[i] / N - prob[i]) <= 7 * std::sqrt(prob[i] * (1 - prob[i]) / N) + 1e-12, nm, ": candidate ", i, " is selected with frequency ", c[i] / N, " instead of ", prob[i]);
}
// selection probabilities of a tournament of two with the given strength order (smaller is better, equal = tie)
static Vec tournament(const std::vector<std::pair<size_t, double>>& key)
{
    const size_t n = key.size();
    Vec p(n, 0);
    auto better = [&](size_t a, size_t b) { return key[a].first < key[b].first || (key[a].first == key[b].first && key[a].second > key[b].second); };
    for (size_t a = 0; a < n; a++) for (size_t b = 0; b < n; b++)
    {
        const double q = 1.0 / double(n * n);
        if (better(a, b)) p[a] += q; else if (better(b, a)) p[b] += q; else { p[a] += q / 2; p[b] += q / 2; }
    }
    return p;
}
static void truncated_fronts(const Mat& m, const Idx& v, const Idx& rank, const G::NSGA2& a, const char* what)
{
    std::map<size_t, Idx> fr;
    for (size_t i : v) fr[rank[i]].push_back(i);
    for (auto& [r, f] : fr)
    {
        std::map<size_t, double> d;
        if (!crowding(m, f, d)) continue;
        for (size_t i = 0; i < v.size(); i++) if (rank[v[i]] == r) check(near(a.dists_[i], d[v[i]]), what, ": crowding distance ", a.dists_[i], " of candidate ", v[i], " is not ", d[v[i]]);
    }
}
static void nsga2(size_t n, size_t nobj, int kind, size_t extra)
{
    Mat p = rows(n, nobj, kind);
    begin("NSGA-II population=", n, " parents=", p);
    RCGA& ga = ga_of(n, nobj);
    G::NSGA2 alg;
    auto& a = alg;
    ga.fitness_matrix_ = mat(p);
    a.initializeImpl(ga);
    Idx rank = ranks_of(p), all(n);
    std::iota(all.begin(), all.end(), 0);
    for (size_t i = 0; i < n; i++) check(alg.ranks_[i] == rank[i], "initial rank of ", i, " is ", alg.ranks_[i]);
    truncated_fronts(p, all, rank, alg, "initial population");
    optimal("NSGA-II", a, ga, rank);
    for (size_t g = 0; g < 2; g++)
    {
        Mat m = p, c = rows(n + (g ? 0 : extra), nobj, kind);
        m.insert(m.end(), c.begin(), c.end());
        begin("NSGA-II population=", n, " generation=", g, " parents and children=", m);
        rank = ranks_of(m);
        const Idx v = select_next("NSGA-II", a, ga, m, n, rank);
        for (size_t i = 0; i < n; i++) check(alg.ranks_[i] == rank[v[i]], "rank ", alg.ranks_[i], " of candidate ", v[i], " is not ", rank[v[i]]);
        Idx ch, left;
        const Idx front = split_front(v, rank, ch, left);
        std::map<size_t, double> d;
        if (!left.empty() && crowding(m, front, d))
            for (size_t x : ch) for (size_t y : left) check(d[x] >= d[y] || near(d[x], d[y]), "candidate ", x, " with the crowding distance ", d[x], " is kept instead of ", y, " with ", d[y], " from the front ", front);
        truncated_fronts(m, v, rank, alg, "next population");
        Mat q; Idx nr;
        for (size_t i : v) { q.push_back(m[i]); nr.push_back(rank[i]); }
        optimal("NSGA-II", a, ga, nr);
        p = q;
    }
    if (n <= 5)
    {
        const auto f = mat(p);
        std::vector<std::pair<size_t, double>> key;
        for (size_t i = 0; i < n; i++) key.push_back({ alg.ranks_[i], alg.dists_[i] });
        bool tie = false;
        for (size_t i = 0; i < n; i++) for (size_t j = 0; j < i; j++) tie |= key[i] == key[j];
        if (tie) { reseed(); for (size_t k = 0; k < 50; k++) check(a.selectImpl(ga, f) < n, "selected index"); }
        else { reseed(); picks("NSGA-II", [&] { return a.selectImpl(ga, f); }, tournament(key)); }
    }
}
// ---- NSGA-III
using Impl = G::NSGA3::Impl;
static Vec row(const FitnessMatrix& m, size_t i) { return Vec(m[i].begin(), m[i].end()); }
struct Assoc { size_t ref; double dist; bool clear; };
static Assoc assoc(const Impl& im, const Vec& f)
{
    Vec x(f.size());
    for (size_t j = 0; j < f.size(); j++) x[j] = (im.ideal_point_[j] - f[j]) / std::max(im.ideal_point_[j] - im.nadir_point_[j], 1e-8);
    double b1 = -INFINITY, b2 = -INFINITY; size_t r = 0;
    for (size_t k = 0; k < im.ref_lines_.size(); k++)
    {
        double s = 0; for (size_t j = 0; j < f.size(); j++) s += x[j] * im.ref_lines_(k, j);
        if (s > b1) { b2 = b1; b1 = s; r = k; } else b2 = std::max(b2, s);
    }
    double xx = 0, xl = 0, ll = 0;
    for (size_t j = 0; j < f.size(); j++) { xx += x[j] * x[j]; xl += x[j] * im.ref_lines_(r, j); ll += im.ref_lines_(r, j) * im.ref_lines_(r, j); }
    return { r, xx - xl * xl / ll, b1 - b2 > 1e-7 * (1 + std::abs(b1)) };
}
static bool close(double a, double b, double scale) { return std::abs(a - b) <= 1e-7 * (1 + std::abs(a) + std::abs(b) + scale); }
static double asf(const Vec& ideal, const Vec& f, size_t dim)
{
    const auto w = G::weightVector(ideal.size(), dim);
    double d = -INFINITY;
    for (size_t j = 0; j < f.size(); j++) { check(j == dim ? w[j] == 1.0 : w[j] > 0 && w[j] < 1e-2, "weight vector ", Vec(w.begin(), w.end())); d = std::max(d, (ideal[j] - f[j]) / w[j]); }
    return d;
}
static void points(const Impl& im, Vec& ideal, const Mat& seen, const Mat& old_extreme)
{
    const size_t no = ideal.size();
    for (auto& r : seen) for (size_t j = 0; j < no; j++) ideal[j] = std::max(ideal[j], r[j]);
    check(Vec(im.ideal_point_.begin(), im.ideal_point_.end()) == ideal, "ideal point ", im.ideal_point_, " instead of the largest values ", ideal);
    check(im.extreme_points_.size() == no, im.extreme_points_.size(), " extreme points");
    Mat cands = seen; cands.insert(cands.end(), old_extreme.begin(), old_extreme.end());
    for (size_t d = 0; d < no; d++)
    {
        const Vec e = row(im.extreme_points_, d);
        check(std::find(cands.begin(), cands.end(), e) != cands.end(), "extreme point ", d, " ", e, " is not one of the solutions");
        const double x = asf(ideal, e, d);
        for (auto& c : cands) { const double y = asf(ideal, c, d); check(x <= y || close(x, y, 0), "extreme point ", d, " ", e, " has a larger scalarized distance ", x, " than ", c, ": ", y); }
    }
}
static void nsga3(size_t n, size_t nobj, int kind, size_t extra)
{
    Mat p = rows(n, nobj, kind);
    const size_t seed = reseed();
    begin("NSGA-III population=", n, " seed=", seed, " parents=", p);
    RCGA& ga = ga_of(n, nobj);
    G::NSGA3 alg;
    auto& a = alg;
    ga.fitness_matrix_ = mat(p);
    a.initializeImpl(ga);
    Impl& im = *alg.pimpl_;
    check(im.ref_lines_.size() >= n || im.ref_lines_.size() > 0, "no reference lines");
    Vec ideal(nobj, -INFINITY);
    points(im, ideal, p, {});
    Idx rank = ranks_of(p);
    for (size_t i = 0; i < n; i++)
    {
        check(im.sol_info_[i].rank == rank[i], "initial rank of ", i, " is ", im.sol_info_[i].rank);
        const auto s = assoc(im, p[i]);
        if (s.clear) check(im.sol_info_[i].ref_idx == s.ref, "candidate ", i, " is associated with the line ", im.sol_info_[i].ref_idx, " instead of ", s.ref);
    }
    optimal("NSGA-III", a, ga, rank);
    for (size_t g = 0; g < 2; g++)
    {
        Mat m = p, c = rows(n + (g ? 0 : extra), nobj, kind);
        m.insert(m.end(), c.begin(), c.end());
        begin("NSGA-III population=", n, " seed=", seed, " generation=", g, " parents and children=", m);
        Mat ext; for (size_t d = 0; d < im.extreme_points_.size(); d++) ext.push_back(row(im.extreme_points_, d));
        rank = ranks_of(m);
        const Idx v = select_next("NSGA-III", a, ga, m, n, rank);
        points(im, ideal, m, ext);
        check(im.sol_info_.size() == n, im.sol_info_.size(), " candidate data");
        std::vector<Assoc> as;
        bool clear = true;
        for (auto& r : m) { as.push_back(assoc(im, r)); }
        size_t worst = 0; for (size_t i : v) worst = std::max(worst, rank[i]);
        for (size_t i = 0; i < m.size(); i++) if (rank[i] <= worst) clear &= as[i].clear;
        for (size_t i = 0; i < n; i++)
        {
            check(im.sol_info_[i].rank == rank[v[i]], "rank ", im.sol_info_[i].rank, " of candidate ", v[i], " is not ", rank[v[i]]);
            if (!as[v[i]].clear) continue;
            check(im.sol_info_[i].ref_idx == as[v[i]].ref, "candidate ", v[i], " is associated with the line ", im.sol_info_[i].ref_idx, " instead of ", as[v[i]].ref);
            check(close(im.sol_info_[i].ref_dist, as[v[i]].dist, 1), "candidate ", v[i], ": distance ", im.sol_info_[i].ref_dist, " from the line instead of ", as[v[i]].dist);
        }
        if (clear)
        {
            Idx ch, left;
            split_front(v, rank, ch, left);
            std::map<size_t, size_t> count;
            for (size_t i : v) count[as[i].ref]++;
            for (size_t y : left) for (size_t x : ch)
            {
                check(count[as[x].ref] <= count[as[y].ref] + 1, "a candidate of the line ", as[x].ref, " with ", count[as[x].ref], " candidates is kept, one of the line ", as[y].ref, " with ", count[as[y].ref], " is left out");
                if (as[x].ref == as[y].ref) check(as[x].dist <= as[y].dist || close(as[x].dist, as[y].dist, 0), "candidate ", x, " is kept instead of ", y, ", which is closer to the line ", as[x].ref);
            }
        }
        Mat q; Idx nr;
        for (size_t i : v) { q.push_back(m[i]); nr.push_back(rank[i]); }
        optimal("NSGA-III", a, ga, nr);
        p = q;
    }
    if (n <= 4)
    {
        const auto f = mat(p);
        Vec prob(n, 0);
        for (size_t x = 0; x < n; x++) for (size_t y = 0; y < n; y++)
        {
            const auto& s = im.sol_info_[x]; const auto& t = im.sol_info_[y];
            const bool same = s.ref_idx == t.ref_idx;
            const bool b = same && (s.rank < t.rank || (s.rank == t.rank && s.ref_dist < t.ref_dist));
            const bool w = same && (t.rank < s.rank || (s.rank == t.rank && t.ref_dist < s.ref_dist));
            const double q = 1.0 / double(n * n);
            if (b) prob[x] += q; else if (w) prob[y] += q; else { prob[x] += q / 2; prob[y] += q / 2; }
        }
        reseed();
        picks("NSGA-III", [&] { return a.selectImpl(ga, f); }, prob);
    }
}
int main(int argc, char** argv)
{
    setup_ga();
    auto size = [] { return coin(0.4) ? rnd(1, 5) : coin(0.8) ? rnd(2, 14) : rnd(10, 50); };
    return run(argc, argv, {
        { "nsga2", nullptr, [=] { nsga2(size(), rnd(2, 4), int(rnd(0, 4)), coin(0.3) ? rnd(0, 3) : 0); } },
        { "nsga3", nullptr, [=] { nsga3(size(), rnd(2, 4), int(rnd(0, 4)), coin(0.3) ? rnd(0, 3) : 0); } },
    });
}
