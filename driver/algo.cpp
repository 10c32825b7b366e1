// Driver: instantiations of the index and sequence algorithms.
#include "utility/algorithm.hpp"
#include "utility/small_vector.hpp"
#include "utility/functional.hpp"
#include "utility/rng.hpp"
#include <vector>
namespace verif
{
    using V = std::vector<size_t>;
    inline void use(V& v, const V& c, std::vector<double>& d, const std::vector<double>& e)
    {
        gapp::detail::erase_duplicates(v);
        (void)gapp::detail::erase_first_stable(v, size_t(1));
        (void)gapp::detail::index_vector(3, 1);
        (void)gapp::detail::argsort(c.begin(), c.end());
        (void)gapp::detail::argsort(c.rbegin(), c.rend());
        (void)gapp::detail::partial_argsort(c.begin(), c.begin(), c.end());
        (void)gapp::detail::partial_argsort(c.rbegin(), c.rbegin(), c.rend());
        (void)gapp::detail::max_element(c.begin(), c.end());
        (void)gapp::detail::min_element(c.begin(), c.end());
        (void)gapp::detail::argmax(c.begin(), c.end());
        (void)gapp::detail::argmin(c.begin(), c.end());
        (void)gapp::detail::argmax(c.rbegin(), c.rend());
        (void)gapp::detail::argmin(c.rbegin(), c.rend());
        (void)gapp::detail::contains(c.begin(), c.end(), size_t(1));
        (void)gapp::detail::find_all(c.begin(), c.end(), gapp::detail::equal_to(size_t(1)));
        (void)gapp::detail::index_of(c, size_t(1));
        (void)gapp::detail::find_index(c, gapp::detail::equal_to(size_t(1)));
        (void)gapp::detail::find_indices(c, gapp::detail::equal_to(size_t(1)));
        (void)gapp::detail::elementwise_min(d, e, gapp::detail::inplace_t{});
        (void)gapp::detail::elementwise_max(d, e, gapp::detail::inplace_t{});
        (void)gapp::detail::lower_bound(c.begin(), c.end(), size_t(1));
        (void)gapp::detail::select(c, c);
        gapp::detail::partial_shuffle(v.begin(), v.begin(), v.end(), gapp::rng::prng);
        (void)gapp::detail::max(size_t(1), size_t(2), size_t(3));
        (void)gapp::detail::min(size_t(1), size_t(2), size_t(3));
    }
}
