// Driver: the circular buffer and the cache of the fitness values.
#include "utility/circular_buffer.hpp"
#include "utility/cache.hpp"
#include <vector>
namespace gapp::detail
{
    void use_cache(circular_buffer<long>& b, fifo_cache<long, long>& c, const long& x, std::vector<long>& v)
    {
        b.emplace_back(x); b.emplace_front(x); b.push_back(x); b.push_front(x); b.pop_front(); b.pop_back(); b.clear(); b.reset(3); b.set_capacity(5); b.front(); b.back(); b[0]; b.at(0);
        c.insert(x, x); c.try_insert(x, x); c.get(x); c.clear(); c.reset(3); c.contains(x);
        c.insert(v.begin(), v.end(), [](long k) { return k; });
    }
    bool use_caches(fifo_cache<long, long>& a, fifo_cache<long, long>& b)
    {
        fifo_cache<long, long> c(3), d, e(a), f(std::move(b));
        a = e; e = std::move(f); a.swap(e);
        circular_buffer<long> p(4), q(p), r(std::move(p));
        q = r; q.swap(r); q = std::move(r);
        return a == e && c == d && q == p;
    }
}
