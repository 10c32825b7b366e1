// Driver: the real metrics and population statistics.
#include "metrics/pop_stats.cpp"
#include "metrics/fitness_metrics.cpp"
#include "metrics/distribution_metrics.cpp"
#include "metrics/misc_metrics.cpp"
#include "metrics/metric_set.cpp"
#include "core/ga_info.cpp"
#include "utility/math.cpp"
