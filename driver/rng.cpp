// Driver: instantiates the real random number layer.
#include "utility/rng.hpp"
#include "utility/qrng.hpp"
#include <vector>
namespace verif
{
    using namespace gapp;
    inline void use()
    {
        const std::vector<double> v;
        (void)rng::randomBool();
        (void)rng::randomInt<unsigned long>(0, 1);
        (void)rng::randomInt<long>(0, 1);
        (void)rng::randomReal<double>();
        (void)rng::randomReal<double>(0.0, 1.0);
        (void)rng::randomNormal<double>(0.0, 1.0);
        (void)rng::randomPoisson<unsigned long>(1.0);
        (void)rng::randomBinomial<unsigned long>(1, 1.0);
        (void)rng::randomIndex(v);
        (void)rng::sampleUnique<unsigned long>(0, 1, 1);
        (void)rng::sampleUnique<int>(0, 1, 1);
        (void)rng::sampleUniqueSet<unsigned long>(0, 1, 1);
        (void)rng::sampleUniqueSet<int>(0, 1, 1);
        (void)rng::sampleCdf<double>(std::span<const double>(v));
        rng::QuasiRandom<double> q(3);
        (void)q();
        q.discard(3);
        q.reset(1.0);
    }
}
