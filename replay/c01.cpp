#include "gah.hpp"
#include "crossover/crossover_impl.hpp"
using namespace H;
using namespace gapp::crossover;

template<typename T> bool same_genes(const Chromosome<T>& c, const Chromosome<T>& p)
{
    if (c.size() != p.size()) return false;
    std::vector<T> a(c.begin(), c.end()), b(p.begin(), p.end());
    std::sort(a.begin(), a.end());
    std::sort(b.begin(), b.end());
    return a == b;
}
template<typename T> bool in(const std::vector<T>& v, const T& x) { return std::find(v.begin(), v.end(), x) != v.end(); }

// expected structure of a child of p1, p2 with the given kept positions: the rest in the order of p2 starting at p2[start], into the free slots starting at slot `start`
template<typename T> void order_check(const Chromosome<T>& p1, const Chromosome<T>& p2, const Chromosome<T>& c, const std::vector<bool>& kept, size_t start)
{
    const size_t n = p1.size();
    check(same_genes(c, p1), "not a permutation: ", c);
    std::vector<T> sel, rest;
    for (size_t k = 0; k < n; k++) if (kept[k]) { check(c[k] == p1[k], "selected position ", k, " not kept: ", c); sel.push_back(p1[k]); }
    for (size_t k = 0; k < n; k++) { const T& g = p2[(start + k) % n]; if (!in(sel, g)) rest.push_back(g); }
    size_t q = 0;
    for (size_t k = 0; k < n; k++) if (!kept[(start + k) % n]) { check(c[(start + k) % n] == rest[q++], "relative order of the second parent not kept: ", c); }
}
template<typename T> void pmx_check(const Chromosome<T>& p1, const Chromosome<T>& p2, const Chromosome<T>& c, size_t f, size_t l)
{
    check(same_genes(c, p1), "not a permutation: ", c);
    std::vector<T> sel(p1.begin() + f, p1.begin() + l);
    for (size_t k = 0; k < p1.size(); k++)
    {
        if (f <= k && k < l) check(c[k] == p1[k], "selected position ", k, " not kept: ", c);
        else if (!in(sel, p2[k])) check(c[k] == p2[k], "non-conflicting gene ", k, " of the second parent not kept: ", c);
    }
}
template<typename T> void cycle_check(const Chromosome<T>& p1, const Chromosome<T>& p2, const Chromosome<T>& c1, const Chromosome<T>& c2)
{
    check(same_genes(c1, p1) && same_genes(c2, p1), "not a permutation: ", c1, " ", c2);
    for (size_t k = 0; k < p1.size(); k++)
        check((c1[k] == p1[k] && c2[k] == p2[k]) || (c1[k] == p2[k] && c2[k] == p1[k]), "position ", k, " not taken from the parents: ", c1, " ", c2);
}

template<typename T> void all_kernels(const Chromosome<T>& p1, const Chromosome<T>& p2, bool exhaustive_sel)
{
    const size_t n = p1.size();
    const auto a = cand<T>(p1, 1), b = cand<T>(p2, 2);
    auto desc = [&](const char* nm, auto&&... x) { begin(nm, " p1=", p1, " p2=", p2, " ", x...); };
    auto range = [&](size_t f, size_t l)
    {
        std::vector<bool> kept(n);
        for (size_t k = f; k < l; k++) kept[k] = true;
        desc("order1", "range ", f, "..", l);
        order_check<T>(p1, p2, dtl::order1CrossoverImpl(a, b, f, l).chromosome, kept, l % n);
        desc("order2", "range ", f, "..", l);
        order_check<T>(p1, p2, dtl::order2CrossoverImpl(a, b, f, l).chromosome, kept, 0);
        desc("pmx", "range ", f, "..", l);
        pmx_check<T>(p1, p2, dtl::pmxCrossoverImpl(a, b, f, l).chromosome, f, l);
    };
    auto sel = [&](std::vector<size_t> idx)
    {
        std::vector<bool> kept(n);
        for (size_t k : idx) kept[k] = true;
        desc("position", "indices ", idx);
        order_check<T>(p1, p2, dtl::positionCrossoverImpl(a, b, std::span<const size_t>(idx)).chromosome, kept, 0);
    };
    if (exhaustive_sel)
    {
        for (size_t f = 0; f <= n; f++) for (size_t l = f; l <= n; l++) range(f, l);
        for (unsigned m = 0; m < (1u << n); m++)
        {
            std::vector<size_t> idx;
            for (size_t k = 0; k < n; k++) if (m >> k & 1) idx.push_back(k);
            sel(idx);
        }
    }
    else
    {
        size_t f = rnd(0, n), l = rnd(0, n);
        if (f > l) std::swap(f, l);
        range(f, l);
        range(coin() ? 0 : f, coin() ? n : l);
        std::vector<size_t> idx;
        const double p = rreal();
        for (size_t k = 0; k < n; k++) if (coin(p)) idx.push_back(k);
        std::shuffle(idx.begin(), idx.end(), H::rng);
        sel(idx);
    }
    desc("cycle");
    auto cp = dtl::cycleCrossoverImpl(a, b);
    cycle_check<T>(p1, p2, cp.first.chromosome, cp.second.chromosome);
    desc("edge");
    auto e = dtl::edgeCrossoverImpl(a, b).chromosome;
    check(same_genes(e, p1), "not a permutation: ", e);
    check(e[0] == p1[0], "does not start with the first parent's first gene: ", e);
    check(a.chromosome == p1 && b.chromosome == p2, "parents modified");
}

template<typename T> Chromosome<T> relabel(const Chromosome<PermutationGene>& p, const std::vector<T>& lab)
{
    Chromosome<T> c(p.size());
    for (size_t i = 0; i < p.size(); i++) c[i] = lab[p[i]];
    return c;
}
template<typename T> void exhaustive(size_t nmax)
{
    for (size_t n = 2; n <= nmax; n++)
    {
        std::vector<T> lab(n);
        for (size_t i = 0; i < n; i++) { if constexpr (std::is_unsigned_v<T>) lab[i] = T(i); else lab[i] = T((i * 7 + 3) % 11) - T(4); }
        Chromosome<PermutationGene> p(n), q(n);
        std::iota(p.begin(), p.end(), 0u);
        do
        {
            std::iota(q.begin(), q.end(), 0u);
            do all_kernels<T>(relabel<T>(p, lab), relabel<T>(q, lab), true);
            while (std::next_permutation(q.begin(), q.end()));
        } while (std::next_permutation(p.begin(), p.end()));
    }
}
// parents with related structure (few exchanges, reversal, rotation) as well as unrelated ones
std::pair<Chromosome<PermutationGene>, Chromosome<PermutationGene>> parents(size_t n)
{
    auto p = rand_perm(n);
    auto q = coin(0.4) ? rand_perm(n) : p;
    const int k = int(rnd(0, 4));
    if (k == 0) std::reverse(q.begin(), q.end());
    if (k == 1) std::rotate(q.begin(), q.begin() + rnd(0, n - 1), q.end());
    if (k == 2) for (size_t i = rnd(0, 3); i-- > 0;) std::swap(q[rnd(0, n - 1)], q[rnd(0, n - 1)]);
    return { p, q };
}
template<typename T> void random_kernels()
{
    const size_t n = rnd(2, coin(0.1) ? 140 : 12);
    auto [p, q] = parents(n);
    std::vector<T> lab(n);
    for (size_t i = 0; i < n; i++) lab[i] = T(i);
    if constexpr (!std::is_unsigned_v<T>) { std::shuffle(lab.begin(), lab.end(), H::rng); for (auto& x : lab) x = T(x * 5 - 20); }
    all_kernels<T>(relabel<T>(p, lab), relabel<T>(q, lab), false);
}
template<typename Op> void op(const char* nm)
{
    const size_t n = rnd(1, coin(0.1) ? 70 : 9);
    auto [p, q] = parents(n);
    const auto& ga = ctx<PermutationGene>(n);
    const size_t s = reseed();
    begin(nm, " p1=", p, " p2=", q, " seed=", s);
    const auto a = cand<PermutationGene>(p, 1), b = cand<PermutationGene>(q, 2);
    const Op o(1.0);
    auto pr = o(ga, a, b);
    check(is_perm(pr.first.chromosome, n) && is_perm(pr.second.chromosome, n), "children not permutations: ", pr.first.chromosome, " ", pr.second.chromosome);
    check(a.chromosome == p && b.chromosome == q, "parents modified");
}

int main(int argc, char** argv)
{
    setup_ga();
    using namespace gapp::crossover::perm;
    return run(argc, argv, {
        { "kernels_exhaustive", [] { exhaustive<size_t>(g_thorough ? 5 : 4); }, nullptr },
        { "kernels_generic_exhaustive", [] { exhaustive<long>(4); }, nullptr },
        { "kernels_random", nullptr, [] { random_kernels<size_t>(); }, 2.0 },
        { "kernels_generic_random", nullptr, [] { random_kernels<int>(); } },
        { "operators", nullptr, [] { op<Order1>("Order1"); op<Order2>("Order2"); op<Position>("Position"); op<Cycle>("Cycle"); op<Edge>("Edge"); op<PMX>("PMX"); }, 2.0 },
    });
}
