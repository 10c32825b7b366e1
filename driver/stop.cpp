// Driver: the real stop conditions, their composition, and the population statistics.
#include "stop_condition/stop_condition.cpp"
#include "stop_condition/stop_condition_base.cpp"
#include "stop_condition/composite.hpp"
#include "metrics/pop_stats.cpp"
#include "core/ga_info.cpp"
namespace gapp::stopping::dtl
{
    template class OR<FitnessMeanStall, FitnessBestStall>;
    template class AND<FitnessMeanStall, FitnessBestStall>;
    template class NOT<FitnessBestStall>;
}
