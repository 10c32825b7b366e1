#include "harness.hpp"
#include "utility/rng.hpp"
#include "utility/qrng.hpp"
using namespace H;
using namespace gapp;
namespace R = gapp::rng;

static size_t reseed() { const size_t s = rnd(0, 1u << 30); R::prng.seed(s); return s; }
template<typename T> static T edge(T lo, T hi)
{
    if (coin(0.3)) return T(lo + T(rnd(0, 3)));
    if (coin(0.3)) return T(hi - T(rnd(0, 3)));
    if constexpr (std::is_signed_v<T>) return static_cast<T>(std::uniform_int_distribution<long long>(lo, hi)(H::rng));
    else return static_cast<T>(std::uniform_int_distribution<unsigned long long>(lo, hi)(H::rng));
}
template<typename T> static void ints(const char* ty)
{
    T lo = edge<T>(std::numeric_limits<T>::min(), std::numeric_limits<T>::max()), hi = edge<T>(std::numeric_limits<T>::min(), std::numeric_limits<T>::max());
    if (coin(0.4)) hi = T(lo < std::numeric_limits<T>::max() - 5 ? lo + T(rnd(0, 4)) : lo);
    if (lo > hi) std::swap(lo, hi);
    const size_t s = reseed();
    begin("randomInt<", ty, ">(", lo, ", ", hi, ") seed=", s);
    for (int i = 0; i < 8; i++) { const T v = R::randomInt<T>(lo, hi); check(lo <= v && v <= hi, "drew ", v); }
}
static void int_all()
{
    ints<int>("int"); ints<long>("long"); ints<size_t>("size_t"); ints<short>("short"); ints<unsigned char>("uchar"); ints<std::uint32_t>("u32");
    const long lo = irnd(-5, 5), n = rnd(1, 6);
    const size_t s = reseed();
    begin("randomInt values lo=", lo, " n=", n, " seed=", s);
    std::set<long> seen;
    for (int i = 0; i < 600; i++) seen.insert(R::randomInt<long>(lo, lo + n - 1));
    check(long(seen.size()) == n, "only ", seen.size(), " of ", n, " values came up in 600 draws");
    bool t = false, f = false;
    for (int i = 0; i < 200; i++) (R::randomBool() ? t : f) = true;
    check(t && f, "randomBool is constant");
    std::vector<int> v(rnd(1, 5));
    std::set<size_t> idx;
    for (int i = 0; i < 600; i++) { const size_t k = R::randomIndex(v); check(k < v.size(), "index ", k, " of ", v.size()); idx.insert(k); auto it = R::randomElement(v.begin(), v.end()); check(it >= v.begin() && it < v.end(), "element outside of the range"); }
    check(idx.size() == v.size(), "not every index came up");
}
template<typename T> static void reals(const char* ty)
{
    const T c[] = { T(0), T(1), T(-1), std::numeric_limits<T>::min(), std::numeric_limits<T>::denorm_min(), std::numeric_limits<T>::max() / 4, -std::numeric_limits<T>::max() / 4, T(1e-3), T(123.456), std::nextafter(T(1), T(2)) };
    T lo = coin(0.6) ? c[rnd(0, 9)] : T(rreal(-100, 100)), hi = coin(0.5) ? c[rnd(0, 9)] : coin(0.5) ? lo : std::nextafter(lo, std::numeric_limits<T>::max());
    if (lo > hi) std::swap(lo, hi);
    const size_t s = reseed();
    begin("randomReal<", ty, ">(", lo, ", ", hi, ") seed=", s);
    for (int i = 0; i < 16; i++)
    {
        const T u = R::randomReal<T>();
        check(T(0) <= u && u < T(1), "randomReal() = ", u);
        const T v = R::randomReal<T>(lo, hi);
        check(lo <= v && v <= hi, "drew ", v);
    }
    T mn = 1, mx = 0;
    for (int i = 0; i < 400; i++) { const T u = R::randomReal<T>(); mn = std::min(mn, u); mx = std::max(mx, u); }
    check(mn < T(0.2) && mx > T(0.8), "400 draws of randomReal() all in [", mn, ", ", mx, "]");
}
static void real_all()
{
    reals<double>("double"); reals<float>("float");
    const double m = rreal(-10, 10), sd = coin(0.3) ? 0.0 : rreal(0, 5);
    const size_t s = reseed();
    begin("randomNormal(", m, ", ", sd, ") seed=", s);
    double sum = 0;
    for (int i = 0; i < 200; i++) { const double v = R::randomNormal<double>(m, sd); check(std::isfinite(v), "drew ", v); if (sd == 0) check(v == m, "drew ", v, " with deviation 0"); sum += v; }
    check(std::abs(sum / 200 - m) <= sd * 0.6 + 1e-9, "mean of 200 draws is ", sum / 200);
}
static void binomial()
{
    const size_t n = coin(0.5) ? rnd(0, 8) : coin(0.5) ? rnd(40, 60) : rnd(0, 3000);
    const double ps[] = { 0.0, 1.0, 1e-300, 5e-324, 0.2, std::nextafter(0.2, 0.0), std::nextafter(1.0, 0.0), 0.5, 10.0 / (double(n) + 1e-9), 1e-3 };
    double p = coin(0.7) ? ps[rnd(0, 9)] : rreal();
    p = std::clamp(p, 0.0, 1.0);
    const size_t s = reseed();
    begin("randomBinomial(", n, ", ", p, ") seed=", s);
    double sum = 0;
    for (int i = 0; i < 40; i++)
    {
        const size_t v = R::randomBinomial<size_t>(n, p);
        sum += double(v);
        check(v <= n, v, " successes in ", n, " trials");
        if (p == 0.0) check(v == 0, v, " successes with rate 0");
        if (p == 1.0) check(v == n, v, " successes of ", n, " with rate 1");
    }
    const double sd = std::sqrt(double(n) * p * (1 - p) / 40);
    check(std::abs(sum / 40 - double(n) * p) <= 8 * sd + 1.0, "the mean of 40 draws is ", sum / 40, ", not about ", double(n) * p);
    const long m = long(n);
    const long w = R::randomBinomial<long>(m, p);
    check(0 <= w && w <= m, w, " successes in ", m, " trials");
    if (n) { const size_t e = R::randomBinomialExact<size_t>(n, p); check(e <= n && (p > 0 || e == 0) && (p < 1 || e == n), "randomBinomialExact gives ", e); }
    if (n) { const size_t e = R::randomBinomialApproxNormal<size_t>(n, p); check(e <= n, "randomBinomialApproxNormal gives ", e); }
    if (n && p * double(n) < 20) { const size_t e = R::randomBinomialApproxPoisson<size_t>(n, p); check(e <= n, "randomBinomialApproxPoisson gives ", e); }
}
template<typename T> static void unique(const char* ty)
{
    size_t range = coin(0.6) ? rnd(0, 12) : coin(0.7) ? rnd(12, 300) : coin(0.5) ? rnd(65530, 65545) : rnd(65536, 200000);
    if (sizeof(T) == 1) range = std::min<size_t>(range, 127);
    if (sizeof(T) == 2) range = std::min<size_t>(range, 30000);
    size_t cnt = coin(0.3) ? range : coin(0.3) ? size_t(0.6 * double(range)) : rnd(0, range);
    if (coin(0.2) && cnt) cnt--;
    if (range >= 60000) cnt = coin(0.5) ? std::min<size_t>(cnt, 3000) : cnt;
    T lo;
    if (coin(0.3)) lo = T(std::numeric_limits<T>::max() - T(range));
    else if (std::is_signed_v<T> && coin(0.5)) lo = coin(0.5) ? std::numeric_limits<T>::min() : T(-T(range / 2));
    else lo = T(rnd(0, 20)) <= std::numeric_limits<T>::max() - T(range) ? T(rnd(0, 20)) : T(0);
    if (lo > std::numeric_limits<T>::max() - T(range)) lo = 0;
    const T hi = T(lo + T(range));
    const size_t s = reseed();
    begin("sampleUnique<", ty, ">(", lo, ", ", hi, ", ", cnt, ") seed=", s);
    auto ok = [&](const auto& v, const char* f)
    {
        check(v.size() == cnt, f, " gives ", v.size(), " values");
        std::set<T> d(v.begin(), v.end());
        check(d.size() == cnt, f, ": the values are not distinct");
        for (T x : v) check(lo <= x && x < hi, f, " gives ", x);
    };
    ok(R::sampleUnique<T>(lo, hi, cnt), "sampleUnique");
    if (coin(0.2)) ok(R::sampleUniqueSet<T>(lo, hi, cnt), "sampleUniqueSet");
    if (range <= 8 && cnt >= 1)
    {
        std::set<T> seen;
        for (int i = 0; i < 300; i++) for (T x : R::sampleUnique<T>(lo, hi, cnt)) seen.insert(x);
        check(seen.size() == range, "only ", seen.size(), " of ", range, " values came up in 300 samples");
    }
}
static void unique_all() { unique<size_t>("size_t"); unique<int>("int"); unique<long>("long"); unique<short>("short"); unique<signed char>("schar"); }
static void cdf()
{
    const size_t n = coin(0.6) ? rnd(1, 6) : coin(0.5) ? rnd(30, 70) : rnd(7, 300);
    std::vector<double> w(n), c(n);
    for (auto& x : w) x = coin(0.3) ? 0.0 : rreal(0.0, 2.0);
    std::partial_sum(w.begin(), w.end(), c.begin());
    const size_t s = reseed();
    begin("sampleCdf n=", n, " weights=", w, " seed=", s);
    std::vector<size_t> cnt(n, 0);
    const int N = n <= 6 ? 500 : 50;
    for (int i = 0; i < N; i++)
    {
        const size_t k = R::sampleCdf<double>(std::span<const double>(c));
        check(k < n, "index ", k, " of ", n);
        check(c.back() == 0.0 || w[k] > 0.0, "index ", k, " has weight 0");
        cnt[k]++;
    }
    if (n <= 6 && c.back() > 0) for (size_t k = 0; k < n; k++)
        if (w[k] / c.back() > 0.05) check(cnt[k] > 0, "index ", k, " with weight ", w[k], " of ", c.back(), " never came up in 500 draws");
}
static void qrng()
{
    const size_t dim = coin(0.7) ? rnd(1, 12) : rnd(1, 400);
    const double sd = coin(0.3) ? 0.0 : coin(0.5) ? rreal() : coin(0.5) ? 0.999999999999999 : rreal(0, 1e12);
    begin("QuasiRandom(", dim, ", ", sd, ")");
    R::QuasiRandom<double> q(dim, sd);
    check(q.dim() == dim, "dim() = ", q.dim());
    std::vector<small_vector<double>> first;
    for (int i = 0; i < 20; i++)
    {
        const auto p = q();
        check(p.size() == dim, "a point of ", p.size(), " coordinates");
        for (double x : p) check(0.0 <= x && x < 1.0, "coordinate ", x);
        first.push_back(p);
    }
    // the generator can be reset to the same sequence, and discard(n) skips n points
    q.reset(sd);
    const size_t k = rnd(0, 19);
    q.discard(k);
    check(q() == first[k], "reset and discard(", k, ") do not give point ", k + 1, " of the sequence");
    const double s2 = rreal();
    q.reset(s2);
    R::QuasiRandom<double> q2(dim, s2);
    for (int i = 0; i < 5; i++) check(q() == q2(), "reset(seed) differs from a new generator with that seed");
    if (dim <= 3 && first.size() > 1) check(first[0] != first[1], "the sequence is constant");
}
int main(int argc, char** argv)
{
    return run(argc, argv, { { "randomInt", nullptr, int_all }, { "randomReal", nullptr, real_all }, { "binomial", nullptr, binomial, 2.0 }, { "sampleUnique", nullptr, unique_all, 2.0 }, { "sampleCdf", nullptr, cdf }, { "qrng", nullptr, qrng } });
}
