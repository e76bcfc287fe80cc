#include <type_traits>
#include <utki/math.hpp>
constexpr bool close(double a, double b){ return (a < b ? b - a : a - b) <= 1e-12 * (b < 0 ? 1 - b : 1 + b); }
constexpr bool closef(float a, double b){ return (a < b ? b - a : a - b) <= 1e-6 * (b < 0 ? 1 - b : 1 + b); }
// @ok the constants
static_assert(close(utki::pi, 3.14159265358979323846), "");
static_assert(close(utki::two_pi, 6.28318530717958647692), "");
static_assert(close(utki::log_2, 0.69314718055994530942), "");
static_assert(utki::pi_degrees == 180, "");
static_assert(close(utki::cm_per_inch, 2.54) && close(utki::mm_per_inch, 25.4), "");
// @ok degrees to radians
static_assert(close(utki::deg_to_rad(180.0), 3.14159265358979323846), "");
static_assert(close(utki::deg_to_rad(0.0), 0), "");
static_assert(close(utki::deg_to_rad(90.0), 1.57079632679489661923), "");
static_assert(close(utki::deg_to_rad(-45.0), -0.78539816339744830961), "");
static_assert(close(utki::deg_to_rad(1.0), 0.01745329251994329577), "");
static_assert(close(utki::deg_to_rad(7200.0), 125.663706143591729539), "");
static_assert(closef(utki::deg_to_rad(90.0f), 1.57079632679489661923), "");
static_assert(closef(utki::deg_to_rad(-30.0f), -0.52359877559829887308), "");
// @ok radians to degrees
static_assert(close(utki::rad_to_deg(3.14159265358979323846), 180), "");
static_assert(close(utki::rad_to_deg(0.0), 0), "");
static_assert(close(utki::rad_to_deg(1.0), 57.29577951308232087680), "");
static_assert(close(utki::rad_to_deg(-1.57079632679489661923), -90), "");
static_assert(close(utki::rad_to_deg(100.0), 5729.577951308232087680), "");
static_assert(closef(utki::rad_to_deg(1.57079632679489661923f), 90), "");
// @ok the two conversions are inverse
static_assert(close(utki::rad_to_deg(utki::deg_to_rad(123.456)), 123.456), "");
static_assert(close(utki::deg_to_rad(utki::rad_to_deg(-2.5)), -2.5), "");
// @ok powers of floating numbers
static_assert(close(utki::pow2(1.5), 2.25) && close(utki::pow3(1.5), 3.375) && close(utki::pow4(1.5), 5.0625) && close(utki::pow5(1.5), 7.59375) && close(utki::pow6(1.5), 11.390625), "");
static_assert(close(utki::pow2(-0.5), 0.25) && close(utki::pow3(-0.5), -0.125) && close(utki::pow4(-0.5), 0.0625) && close(utki::pow5(-0.5), -0.03125) && close(utki::pow6(-0.5), 0.015625), "");
static_assert(utki::pow2(0.0f) == 0 && utki::pow3(0.0f) == 0 && utki::pow4(0.0f) == 0 && utki::pow5(0.0f) == 0 && utki::pow6(0.0f) == 0, "");
// @ok the result has the type of the argument and nothing throws
template <class T> constexpr bool types(){
	return std::is_same<decltype(utki::sign(T(1))), T>::value && std::is_same<decltype(utki::pow2(T(1))), T>::value && std::is_same<decltype(utki::pow3(T(1))), T>::value &&
		std::is_same<decltype(utki::pow4(T(1))), T>::value && std::is_same<decltype(utki::pow5(T(1))), T>::value && std::is_same<decltype(utki::pow6(T(1))), T>::value &&
		noexcept(utki::sign(T(1))) && noexcept(utki::pow2(T(1))) && noexcept(utki::pow6(T(1)));
}
static_assert(types<int>() && types<unsigned>() && types<long long>() && types<float>() && types<double>() && types<short>(), "");
static_assert(std::is_same<decltype(utki::deg_to_rad(1.0f)), float>::value && std::is_same<decltype(utki::rad_to_deg(1.0f)), float>::value, "");
static_assert(std::is_same<decltype(utki::deg_to_rad(1.0)), double>::value && std::is_same<decltype(utki::rad_to_deg(1.0)), double>::value, "");
