#include "gah.hpp"
using namespace H;
using namespace gapp::mutation::perm;
using Ch = Chromosome<PermutationGene>;

// run the operator's mutate() through the public operator() on a candidate that is already evaluated
template<typename Op> static Ch mutated(const Op& op, const Ch& c)
{
    const auto& ga = ctx<PermutationGene>(c.size());
    Candidate<PermutationGene> x = cand<PermutationGene>(c);
    op(ga, x);
    return x.chromosome;
}
static size_t rlen() { return coin(0.3) ? rnd(1, 4) : coin(0.1) ? rnd(20, 60) : rnd(2, 12); }
static double rpm() { const double p[] = { 0.0, 1.0, 1.0, 1.0, 0.5 }; return p[rnd(0, 4)]; }
static double rrange() { const double p[] = { 0.0, 1.0, 0.75, 0.5, 0.999999, 1e-9 }; return coin(0.6) ? p[rnd(0, 5)] : rreal(); }

template<typename Mk, typename St> static void run_op(const char* nm, size_t minlen, Mk&& mk, St&& st)
{
    const size_t n = rlen();
    const Ch c = rand_perm(n);
    const double pm = rpm(), rm = rrange();
    const size_t s = reseed();
    begin(nm, " n=", n, " pm=", pm, " range_max=", rm, " seed=", s, " chromosome=", c);
    const Ch m = mutated(mk(pm, rm), c);
    g_case += cat(" mutated=", m);
    check(m.size() == n, "length changed to ", m.size());
    check(is_perm(m, n), "the mutated chromosome is not a permutation");
    if (pm == 0.0) check(m == c, "mutated with mutation rate 0");
    if (n < minlen) check(m == c, "a chromosome shorter than ", minlen, " changed");
    if (n >= minlen && m != c)
    {
        size_t f = 0, l = n;
        while (c[f] == m[f]) f++;
        while (c[l - 1] == m[l - 1]) l--;
        st(c, m, f, l, std::max(size_t(rm * double(n)), size_t(2)), pm);
    }
    else st(c, m, 0, 0, std::max(size_t(rm * double(n)), size_t(2)), pm);
}

static void inversion()
{
    run_op("Inversion", 2, [](double p, double r) { return Inversion(p, r); }, [](const Ch& c, const Ch& m, size_t f, size_t l, size_t mx, double pm)
    {
        if (pm == 1.0 && c.size() >= 2) check(m != c, "nothing was reversed with mutation rate 1");
        check(l - f <= mx, "the reversed range of ", l - f, " genes is longer than ", mx);
        for (size_t i = f; i < l; i++) check(m[i] == c[f + l - 1 - i], "the changed range is not a reversal");
    });
}
static void swap2()
{
    run_op("Swap2", 2, [](double p, double) { return Swap2(p); }, [](const Ch& c, const Ch& m, size_t, size_t, size_t, double pm)
    {
        size_t d = 0;
        for (size_t i = 0; i < c.size(); i++) d += c[i] != m[i];
        check(d == 0 || d == 2, d, " positions changed");
        if (pm == 1.0 && c.size() >= 2) check(d == 2, "nothing was swapped with mutation rate 1");
    });
}
static void swap3()
{
    run_op("Swap3", 3, [](double p, double) { return Swap3(p); }, [](const Ch& c, const Ch& m, size_t, size_t, size_t, double pm)
    {
        size_t d = 0;
        for (size_t i = 0; i < c.size(); i++) d += c[i] != m[i];
        check(d == 0 || d == 3, d, " positions changed");
        if (pm == 1.0 && c.size() >= 3) check(d == 3, "nothing was swapped with mutation rate 1");
    });
}
static void shuffle()
{
    run_op("Shuffle", 2, [](double p, double r) { return Shuffle(p, r); }, [](const Ch&, const Ch&, size_t f, size_t l, size_t mx, double)
    {
        check(l - f <= mx, "the shuffled range of ", l - f, " genes is longer than ", mx);
    });
}
static void shift()
{
    run_op("Shift", 2, [](double p, double r) { return Shift(p, r); }, [](const Ch& c, const Ch& m, size_t f, size_t l, size_t mx, double pm)
    {
        if (pm == 1.0 && c.size() >= 2) check(m != c, "nothing was moved with mutation rate 1");
        if (f == l) return;
        // [f, l) is rotated
        const size_t k = size_t(std::find(c.begin() + f, c.begin() + l, m[f]) - c.begin()) - f;
        for (size_t i = f; i < l; i++) check(m[i] == c[f + (i - f + k) % (l - f)], "the changed range is not a rotation");
        check(std::min(k, l - f - k) <= std::max(mx, size_t(1)), "the moved block of ", std::min(k, l - f - k), " genes is longer than ", mx);
    });
}
int main(int argc, char** argv)
{
    setup_ga();
    return run(argc, argv, { { "inversion", nullptr, inversion }, { "swap2", nullptr, swap2 }, { "swap3", nullptr, swap3 }, { "shuffle", nullptr, shuffle }, { "shift", nullptr, shift } });
}
