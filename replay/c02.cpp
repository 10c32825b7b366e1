#include "gah.hpp"
#include "crossover/crossover_impl.hpp"
using namespace H;
using namespace gapp::crossover;

template<typename Tp> Chromosome<Tp> rand_chrom(size_t n)
{
    Chromosome<Tp> c(n);
    const int style = int(rnd(0, 3));
    for (size_t i = 0; i < n; i++)
    {
        if constexpr (std::is_same_v<Tp, BinaryGene>) c[i] = Tp(coin());
        else c[i] = style == 0 ? Tp(irnd(-2, 2)) : style == 1 ? Tp(irnd(-1000, 1000)) : style == 2 ? std::numeric_limits<Tp>::max() - Tp(rnd(0, 2)) : std::numeric_limits<Tp>::min() + Tp(rnd(0, 3));
    }
    return c;
}
// distinct-everywhere parents: the source of every child gene is visible
template<typename Tp> std::pair<Chromosome<Tp>, Chromosome<Tp>> marked(size_t n)
{
    Chromosome<Tp> a(n), b(n);
    for (size_t i = 0; i < n; i++)
    {
        if constexpr (std::is_same_v<Tp, BinaryGene>) { a[i] = Tp(coin()); b[i] = Tp(!a[i]); }
        else { a[i] = Tp(i); b[i] = Tp(-1) - Tp(i); }
    }
    return { a, b };
}

template<typename Tp> void compl_check(const Chromosome<Tp>& p1, const Chromosome<Tp>& p2, const Chromosome<Tp>& c1, const Chromosome<Tp>& c2)
{
    check(c1.size() == p1.size() && c2.size() == p1.size(), "child length ", c1.size(), ",", c2.size());
    for (size_t k = 0; k < p1.size(); k++)
        check((c1[k] == p1[k] && c2[k] == p2[k]) || (c1[k] == p2[k] && c2[k] == p1[k]), "position ", k, ": children ", c1, " ", c2);
}
// number of maximal runs in which genes are exchanged / changes of source parent
template<typename Tp> size_t switches(const Chromosome<Tp>& p1, const Chromosome<Tp>& c1)
{
    size_t s = 0;
    for (size_t k = 1; k < p1.size(); k++) s += (c1[k] == p1[k]) != (c1[k - 1] == p1[k - 1]);
    return s;
}

template<typename Tp, typename Op> void run_op(const Op& op, const char* nm, size_t maxsw)
{
    const size_t n = rnd(1, coin(0.1) ? 130 : 14);
    auto [p1, p2] = coin(0.7) ? marked<Tp>(n) : std::pair(rand_chrom<Tp>(n), rand_chrom<Tp>(n));
    const auto& ga = ctx<Tp>(n);
    const size_t s = reseed();
    begin(nm, " p1=", p1, " p2=", p2, " seed=", s);
    const auto a = cand<Tp>(p1, 1.0), b = cand<Tp>(p2, 2.0);
    auto pr = op(ga, a, b);
    compl_check(p1, p2, pr.first.chromosome, pr.second.chromosome);
    check(a.chromosome == p1 && b.chromosome == p2, "parents modified");
    bool m = true;
    for (size_t k = 0; k < n; k++) m = m && p1[k] != p2[k];
    if (m) check(switches(p1, pr.first.chromosome) <= maxsw, "source parent changes more often than the number of cut points, child ", pr.first.chromosome);
}

template<typename Tp> void impl_single()
{
    for (size_t n = 0; n <= 9; n++)
        for (size_t cp = 0; cp <= n; cp++)
        {
            auto [p1, p2] = marked<Tp>(n);
            begin("single-point n=", n, " point=", cp, " p1=", p1);
            auto pr = dtl::singlePointCrossoverImpl(cand<Tp>(p1), cand<Tp>(p2), cp);
            compl_check(p1, p2, pr.first.chromosome, pr.second.chromosome);
            for (size_t k = 1; k < n; k++)
                if (k != cp) check((pr.first.chromosome[k] == p1[k]) == (pr.first.chromosome[k - 1] == p1[k - 1]), "source changes at ", k);
            if (0 < cp && cp < n) check((pr.first.chromosome[cp] == p1[cp]) != (pr.first.chromosome[cp - 1] == p1[cp - 1]), "source does not change at the cut");
        }
}
template<typename Tp> void impl_two()
{
    for (size_t n = 0; n <= 8; n++)
        for (size_t a = 0; a <= n; a++)
            for (size_t b = 0; b <= n; b++)
            {
                auto [p1, p2] = marked<Tp>(n);
                begin("two-point n=", n, " points=", a, ",", b, " p1=", p1);
                auto pr = dtl::twoPointCrossoverImpl(cand<Tp>(p1), cand<Tp>(p2), { a, b });
                compl_check(p1, p2, pr.first.chromosome, pr.second.chromosome);
                for (size_t k = 1; k < n; k++)
                {
                    const bool sw = (pr.first.chromosome[k] == p1[k]) != (pr.first.chromosome[k - 1] == p1[k - 1]);
                    check(sw == ((k == a) != (k == b)), "source of position ", k, " wrong; child ", pr.first.chromosome);
                }
            }
}
template<typename Tp> void impl_n()
{
    for (size_t n = 0; n <= 7; n++)
        for (unsigned mask = 0; mask < (1u << (n + 1)); mask++)
        {
            auto [p1, p2] = marked<Tp>(n);
            small_vector<size_t> pts;
            for (size_t i = 0; i <= n; i++) if (mask >> i & 1) pts.push_back(i);
            std::shuffle(pts.begin(), pts.end(), H::rng);
            begin("n-point n=", n, " points=", pts, " p1=", p1);
            auto pr = dtl::nPointCrossoverImpl(cand<Tp>(p1), cand<Tp>(p2), pts);
            compl_check(p1, p2, pr.first.chromosome, pr.second.chromosome);
            for (size_t k = 1; k < n; k++)
            {
                const bool sw = (pr.first.chromosome[k] == p1[k]) != (pr.first.chromosome[k - 1] == p1[k - 1]);
                check(sw == bool(mask >> k & 1), "source of position ", k, " wrong; child ", pr.first.chromosome);
            }
        }
}
template<typename Tp> void ops()
{
    using namespace gapp::crossover;
    constexpr bool B = std::is_same_v<Tp, BinaryGene>;
    using SP = std::conditional_t<B, binary::SinglePoint, integer::SinglePoint>;
    using TP = std::conditional_t<B, binary::TwoPoint, integer::TwoPoint>;
    using NP = std::conditional_t<B, binary::NPoint, integer::NPoint>;
    using UN = std::conditional_t<B, binary::Uniform, integer::Uniform>;
    run_op<Tp>(SP(1.0), "SinglePoint", 1);
    run_op<Tp>(TP(1.0), "TwoPoint", 2);
    const size_t k = coin(0.2) ? rnd(1, 300) : rnd(1, 6);
    run_op<Tp>(NP(1.0, k), cat("NPoint(", k, ")").c_str(), k);
    const double ps = coin(0.2) ? double(coin()) : rreal();
    run_op<Tp>(UN(1.0, ps), cat("Uniform(", ps, ")").c_str(), 100000);
}

int main(int argc, char** argv)
{
    setup_ga();
    return run(argc, argv, {
        { "impl_binary", [] { impl_single<BinaryGene>(); impl_two<BinaryGene>(); impl_n<BinaryGene>(); }, nullptr },
        { "impl_integer", [] { impl_single<IntegerGene>(); impl_two<IntegerGene>(); impl_n<IntegerGene>(); }, nullptr },
        { "operators_binary", nullptr, [] { ops<BinaryGene>(); } },
        { "operators_integer", nullptr, [] { ops<IntegerGene>(); } },
    });
}
