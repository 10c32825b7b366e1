// Driver: the thread pool and its queue (real sources) for one element and one function type.
#include "utility/thread_pool.hpp"
#include <vector>
namespace verif { struct op { void operator()(unsigned long& x) const; }; }
namespace gapp::detail
{
    template class concurrent_queue<unsigned long>;
    template bool concurrent_queue<unsigned long>::emplace<const unsigned long&>(const unsigned long&);
    using It = std::vector<unsigned long>::iterator;
    template void thread_pool::execute_loop<const verif::op&, It>(It, It, size_t, const verif::op&);
    template void parallel_for<const verif::op&, It>(It, It, const verif::op&);
    template void parallel_for<const verif::op&, It>(It, It, size_t, const verif::op&);
}
