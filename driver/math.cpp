// Driver: the real math utilities (math.cpp is included so that its functions are in the same translation unit).
#include "utility/math.cpp"
namespace verif
{
    inline void use(double a, double b, std::span<const double> v)
    {
        (void)gapp::math::floatCompare<double>(a, b);
        (void)gapp::math::floatIsEqual<double>(a, b);
        (void)gapp::math::floatIsLess<double>(a, b);
        (void)gapp::math::floatIsLessAssumeNotGreater<double>(a, b);
        (void)gapp::math::floatIsGreater<double>(a, b);
        (void)gapp::math::floatIsLessEq<double>(a, b);
        (void)gapp::math::floatIsGreaterEq<double>(a, b);
        (void)gapp::math::floatVecIsEqual<double>(v, v);
    }
}
