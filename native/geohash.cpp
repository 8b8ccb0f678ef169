// The codec of the geohash codes for processors without the BMI2 instructions,
// which those of today never run: the same source, told that it has them not.
#include <pybind11/eigen.h>
#include <pybind11/pybind11.h>
#include <pybind11/stl.h>

#include <Eigen/Core>
#include <array>
#include <cmath>
#include <iomanip>
#include <limits>
#include <sstream>
#include <string>
#include <tuple>

#include "pyinterp/detail/broadcast.hpp"
#include "pyinterp/detail/math.hpp"
#include "pyinterp/geodetic/box.hpp"
#include "pyinterp/geodetic/point.hpp"
#include "pyinterp/geodetic/polygon.hpp"
#include "pyinterp/geohash/int64.hpp"

#ifdef __x86_64__
#undef __x86_64__
#define VTN_X86_64
#endif
#include "../lib/geohash/int64.cpp"
#ifdef VTN_X86_64
#define __x86_64__ 1
#endif

namespace py = pybind11;
namespace int64 = pyinterp::geohash::int64;
using pyinterp::geodetic::Box;
using pyinterp::geodetic::Point;
using X = Eigen::VectorXd;

PYBIND11_MODULE(vtn_geohash, m) {
  m.def("encode", [](const X& lon, const X& lat, uint32_t precision) { return int64::encode(lon, lat, precision); });
  m.def("decode", [](const pyinterp::Vector<uint64_t>& code, uint32_t precision, bool round) {
    return int64::decode(code, precision, round);
  });
  m.def("bounding_box", [](uint64_t code, uint32_t precision) {
    auto b = int64::bounding_box(code, precision);
    return std::make_tuple(b.min_corner().lon(), b.min_corner().lat(), b.max_corner().lon(), b.max_corner().lat());
  });
  m.def("neighbors", [](uint64_t code, uint32_t precision) { return int64::neighbors(code, precision); });
  m.def("bounding_boxes", [](double x0, double y0, double x1, double y1, uint32_t precision) {
    return int64::bounding_boxes(Box(Point(x0, y0), Point(x1, y1)), precision);
  });
}
