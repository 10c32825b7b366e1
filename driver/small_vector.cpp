// Driver: the small vector.
#include "utility/small_vector.hpp"
#include <vector>
namespace gapp
{
    using SV = small_vector<long, 4>;
    void use_small_vector(SV& v, const SV& c, const long& x, long& y, std::vector<long>& s, SV::const_iterator p, size_t k)
    {
        v.reserve(k); v.shrink_to_fit(); v.clear(); v.reset(); v.push_back(x); v.push_back(std::move(y)); v.insert(p, std::move(y)); v.emplace_back(x); v.push_back_unchecked(x); v.pop_back(); v.resize(k); v.resize(k, x);
        v.insert(p, x); v.emplace(p, x); v.insert(p, k, x); v.insert(p, s.cbegin(), s.cend()); v.erase(p); v.erase(p, p); v.assign(k, x); v.assign(s.cbegin(), s.cend());
        v[k]; c[k]; v.at(k); c.at(k); v.front(); c.front(); v.back(); c.back(); v.size(); v.capacity(); v.empty(); SV a1(k), a2(k, x), a3(s.cbegin(), s.cend()); (void)(v == c); SV a4(std::move(a1)), a5(c); a1.swap(a2); a1 = std::move(a2); a1 = c;
    }
}
namespace gapp
{
    struct Elem { Elem(); Elem(const Elem&); Elem(Elem&&) noexcept; Elem& operator=(const Elem&); Elem& operator=(Elem&&) noexcept; ~Elem(); };
    void use_elements(std::allocator<Elem>& a, Elem* p, const Elem& e, std::vector<Elem>& s)
    {
        detail::construct_range(a, p, p); detail::construct_range(a, p, p, e); detail::construct_range(a, p, p, s.cbegin());
        detail::relocate_range_strong(a, p, p, p); detail::relocate_range_weak(a, p, p, p); detail::destroy_range(a, p, p);
    }
}
