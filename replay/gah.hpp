// GA contexts and random candidates shared by the operator harnesses.
#ifndef VERIF_GAH_HPP
#define VERIF_GAH_HPP
#include "harness.hpp"
#include "gapp.hpp"
using namespace gapp;

template<typename Tp>
struct FlatFitness final : public FitnessFunctionBase<Tp>
{
    size_t nobj;
    explicit FlatFitness(size_t len, size_t n = 1) : FitnessFunctionBase<Tp>(len, FitnessFunctionBase<Tp>::Type::Static), nobj(n) {}
    FitnessVector invoke(const Chromosome<Tp>&) const override { return FitnessVector(nobj, 0.0); }
};

template<typename Tp> struct GaOf;
template<> struct GaOf<BinaryGene> { using type = BinaryGA; };
template<> struct GaOf<IntegerGene> { using type = IntegerGA; };
template<> struct GaOf<RealGene> { using type = RCGA; };
template<> struct GaOf<PermutationGene> { using type = PermutationGA; };

// one initialised GA per (chromosome length, objectives)
template<typename Tp>
inline const typename GaOf<Tp>::type& ctx(size_t len, size_t nobj = 1)
{
    static std::map<std::pair<size_t, size_t>, std::unique_ptr<typename GaOf<Tp>::type>> m;
    auto& p = m[{ len, nobj }];
    if (!p)
    {
        p = std::make_unique<typename GaOf<Tp>::type>(Positive<size_t>{ 4 });
        if constexpr (std::is_same_v<Tp, PermutationGene>) p->mutation_method(mutation::perm::Inversion(0.0));
        if constexpr (std::is_same_v<Tp, IntegerGene>) p->solve(FlatFitness<Tp>(len, nobj), Bounds<Tp>{ -5, 5 }, 1);
        else if constexpr (std::is_same_v<Tp, RealGene>) p->solve(FlatFitness<Tp>(len, nobj), Bounds<Tp>{ -1.0, 1.0 }, 1);
        else p->solve(FlatFitness<Tp>(len, nobj), 1);
    }
    return *p;
}

inline size_t reseed()
{
    const size_t s = H::rng();
    gapp::rng::prng.seed(s);
    return s;
}

inline Chromosome<PermutationGene> rand_perm(size_t n)
{
    Chromosome<PermutationGene> c(n);
    std::iota(c.begin(), c.end(), 0u);
    std::shuffle(c.begin(), c.end(), H::rng);
    return c;
}
template<typename Tp> inline Candidate<Tp> cand(const Chromosome<Tp>& c, double fit = 0.0)
{
    Candidate<Tp> x{ c };
    x.fitness = { fit };
    x.is_evaluated = true;
    return x;
}
inline bool is_perm(const Chromosome<PermutationGene>& c, size_t n)
{
    if (c.size() != n) return false;
    std::vector<char> s(n, 0);
    for (auto g : c) { if (size_t(g) >= n || s[g]) return false; s[g] = 1; }
    return true;
}
inline int setup_ga() { gapp::execution_threads(1); return 0; }
#endif
