// The elementary functions the library is made of.
#include <pybind11/eigen.h>
#include <pybind11/pybind11.h>
#include <pybind11/stl.h>

#include "pyinterp/detail/math.hpp"
#include "pyinterp/detail/math/window_functions.hpp"

namespace py = pybind11;
namespace math = pyinterp::detail::math;
using X = std::vector<double>;

template <typename F>
static auto map(const X& x, F f) {
  std::vector<decltype(f(0.0))> out;
  for (auto v : x) out.push_back(f(v));
  return out;
}

PYBIND11_MODULE(vtn_math, m) {
  m.def("sind", [](const X& x) { return map(x, [](double v) { return math::sind(v); }); });
  m.def("cosd", [](const X& x) { return map(x, [](double v) { return math::cosd(v); }); });
  m.def("tand", [](const X& x) { return map(x, [](double v) { return math::tand(v); }); });
  m.def("atand", [](const X& x) { return map(x, [](double v) { return math::atand(v); }); });
  m.def("sincosd", [](const X& x) { return map(x, [](double v) { return math::sincosd(v); }); });
  m.def("radians", [](const X& x) { return map(x, [](double v) { return math::radians(v); }); });
  m.def("degrees", [](const X& x) { return map(x, [](double v) { return math::degrees(v); }); });
  m.def("sinc", [](const X& x) { return map(x, [](double v) { return math::sinc(v); }); });
  m.def("atan2d", [](const X& y, const X& x) {
    X out;
    for (size_t i = 0; i < x.size(); ++i) out.push_back(math::atan2d(y[i], x[i]));
    return out;
  });
  m.def("remainder", [](const X& x, double y) { return map(x, [y](double v) { return math::remainder(v, y); }); });
  m.def("remainder_int", [](const std::vector<int64_t>& x, int64_t y) {
    std::vector<int64_t> out;
    for (auto v : x) out.push_back(math::remainder(v, y));
    return out;
  });
  m.def("normalize_angle", [](const X& x, double min, double circle) {
    return map(x, [=](double v) { return math::normalize_angle(v, min, circle); });
  });
  m.def("is_same", [](double a, double b, double eps) { return math::is_same(a, b, eps); });
  m.def("is_almost_zero", [](double a, double eps) { return math::is_almost_zero(a, eps); });
  m.def("power2", [](int32_t n) { return math::power2(n); });
  m.def("power10", [](int32_t n) { return math::power10(n); });
  m.def("window", [](int kind, const X& d, double r, double arg) {
    auto wf = math::WindowFunction<double>(static_cast<math::window::Function>(kind));
    return map(d, [&](double v) { return wf(v, r, arg); });
  });
}
