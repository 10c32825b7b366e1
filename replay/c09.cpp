#include "gah.hpp"
#include "algorithm/nd_sort.hpp"
using namespace H;
namespace A = gapp::algorithm::dtl;
using Rows = std::vector<std::vector<double>>;

static double val(int kind)
{
    switch (kind)
    {
        case 0: return double(irnd(0, 2));
        case 1: return double(irnd(-4, 4));
        case 2: return coin(0.1) ? (coin() ? 1e300 : -1e300) : double(irnd(-20, 20)) / 8;
        case 3: return coin(0.1) ? (coin() ? INFINITY : -INFINITY) : double(irnd(-3, 3));
        default: return std::ldexp(double(irnd(-100, 100)), int(irnd(-10, 30)));
    }
}
static Rows rows(size_t n, size_t m, int kind)
{
    Rows r(n, std::vector<double>(m));
    for (auto& x : r) for (auto& v : x) v = val(kind);
    if (m > 1 && coin(0.3)) for (auto& x : r) { x[m - 1] = -x[0]; }                       // one big front
    if (m > 1 && coin(0.2)) for (auto& x : r) { for (auto& v : x) v = x[0] + 0.0; }       // a chain
    for (int k = 0; n > 1 && k < 3; k++) if (coin(0.4)) r[rnd(0, n - 1)] = r[rnd(0, n - 1)];
    return r;
}
static FitnessMatrix mat(const Rows& r, size_t m)
{
    FitnessMatrix f; f.reserve(r.size(), m);
    for (const auto& x : r) f.append_row(FitnessVector(x.begin(), x.end()));
    return f;
}
static bool worse(const std::vector<double>& a, const std::vector<double>& b)
{
    bool lt = false;
    for (size_t i = 0; i < a.size(); i++) { if (a[i] > b[i]) return false; lt = lt || a[i] < b[i]; }
    return lt;
}
// rank = length of the longest chain of dominators
static std::vector<size_t> brute(const Rows& r)
{
    const size_t n = r.size(), none = size_t(-1);
    std::vector<size_t> rk(n, none);
    for (size_t left = n, k = 0; left; k++)
    {
        std::vector<size_t> cur;
        for (size_t i = 0; i < n; i++)
        {
            bool d = rk[i] != none;
            for (size_t j = 0; j < n && !d; j++) d = rk[j] == none && worse(r[i], r[j]);
            if (!d) cur.push_back(i);
        }
        for (size_t i : cur) rk[i] = k;
        left -= cur.size();
    }
    return rk;
}
using FE = std::vector<A::FrontElement>;
static std::string show(const FE& v) { std::string s; for (auto& e : v) s += str(e.idx) + ":" + str(e.rank) + " "; return s; }
static void verify(const char* name, const FE& e, const std::vector<size_t>& want)
{
    check(e.size() == want.size(), name, " returns ", e.size(), " elements");
    std::vector<char> seen(want.size());
    for (size_t i = 0; i < e.size(); i++)
    {
        check(e[i].idx < want.size() && !seen[e[i].idx], name, ": index ", e[i].idx, " repeated or out of range: ", show(e));
        seen[e[i].idx] = 1;
        check(e[i].rank == want[e[i].idx], name, ": element ", e[i].idx, " has rank ", e[i].rank, " instead of ", want[e[i].idx], ": ", show(e));
        check(i == 0 || e[i - 1].rank <= e[i].rank, name, ": not ordered by rank: ", show(e));
    }
}
static void sorts(const Rows& all, size_t m)
{
    // a sub-range of the rows as well
    const size_t a = coin(0.8) ? 0 : rnd(0, all.size() - 1), b = coin(0.8) ? all.size() : rnd(a + 1, all.size());
    const Rows r(all.begin() + long(a), all.begin() + long(b));
    const FitnessMatrix f = mat(all, m);
    begin("rows=", all, " range=[", a, ",", b, ")");
    const auto want = brute(r);
    const auto first = f.begin() + long(a), last = f.begin() + long(b);
    verify("efficientNonDominatedSort", A::efficientNonDominatedSort(first, last), want);
    verify("fastNonDominatedSort", A::fastNonDominatedSort(first, last), want);
    verify("dominanceDegreeSort", A::dominanceDegreeSort(first, last), want);
    auto pf = A::nonDominatedSort(first, last);
    verify("nonDominatedSort", FE(pf.begin(), pf.end()), want);
    check(pf.ranks() == want, "ranks() = ", pf.ranks(), " expected ", want);
    if (a == 0 && b == all.size()) { auto p2 = A::nonDominatedSort(f); check(FE(p2.begin(), p2.end()) == FE(pf.begin(), pf.end()), "the matrix overload differs"); }
}
static void bookkeeping()
{
    // any assignment of ranks 0,0,..,1,..,k without gaps over a permutation of the indices
    const size_t n = coin(0.7) ? rnd(1, 8) : rnd(1, 60);
    std::vector<size_t> idx(n); std::iota(idx.begin(), idx.end(), 0); std::shuffle(idx.begin(), idx.end(), H::rng);
    FE e; size_t rk = 0;
    const double p = rreal();
    for (size_t i = 0; i < n; i++) { if (i && coin(p)) rk++; e.emplace_back(idx[i], rk); }
    begin("elements=", show(e));
    A::ParetoFronts pf(e);
    check(pf.size() == n && FE(pf.begin(), pf.end()) == e, "the elements are changed by the constructor");
    std::vector<size_t> want(n);
    for (auto& x : e) want[x.idx] = x.rank;
    check(pf.ranks() == want, "ranks() = ", pf.ranks(), " expected ", want);
    auto fr = pf.fronts();
    check(fr.size() == rk + 1, "fronts() has ", fr.size(), " fronts, expected ", rk + 1);
    size_t pos = 0;
    for (size_t i = 0; i < fr.size(); i++)
    {
        check(fr[i].begin() == pf.begin() + long(pos), "front ", i, " does not start where the one before it ends");
        for (auto it = fr[i].begin(); it != fr[i].end(); ++it, ++pos) check(it->rank == i, "front ", i, " contains an element of rank ", it->rank);
    }
    check(pos == n, "the fronts cover ", pos, " elements of ", n);
    for (size_t s = 1; s < n; s++)
    {
        if (n > 10 && coin(0.7)) continue;
        auto part = pf.partialFront(s);
        // the front that is cut by the first s elements; empty when the cut falls between two fronts
        size_t lo = 0, hi = 0;
        if (e[s - 1].rank == e[s].rank)
        {
            lo = hi = s;
            while (lo > 0 && e[lo - 1].rank == e[s].rank) lo--;
            while (hi < n && e[hi].rank == e[s].rank) hi++;
            check(part.begin() == pf.begin() + long(lo) && part.end() == pf.begin() + long(hi), "partialFront(", s, ") is [", part.begin() - pf.begin(), ",", part.end() - pf.begin(), ") expected [", lo, ",", hi, ")");
        }
        else check(part.begin() == part.end(), "partialFront(", s, ") is not empty");
    }
    const size_t k = rnd(0, n);
    pf.resize(k);
    check(FE(pf.begin(), pf.end()) == FE(e.begin(), e.begin() + long(k)), "resize(", k, ") leaves ", show(FE(pf.begin(), pf.end())));
}
int main(int argc, char** argv)
{
    gapp::execution_threads(4);
    return run(argc, argv, {
        { "sorts", [] {
            for (size_t m = 1; m <= 3; m++) for (size_t n = 1; n <= (m == 3 ? 3u : m == 2 ? 4u : 5u); n++)
            {
                const size_t base = m == 3 ? 2 : 3; size_t tot = 1;
                for (size_t i = 0; i < n * m; i++) tot *= base;
                for (size_t c = 0; c < tot; c++)
                {
                    Rows r(n, std::vector<double>(m)); size_t k = c;
                    for (auto& x : r) for (auto& v : x) { v = double(k % base); k /= base; }
                    sorts(r, m);
                }
            } },
          [] { const size_t m = rnd(1, 5); sorts(rows(coin(0.7) ? rnd(1, 9) : rnd(1, 70), m, int(rnd(0, 4))), m); }, 3.0 },
        { "fronts", nullptr, bookkeeping },
    });
}
