// The C++ R-tree on plain Cartesian points.
#include <pybind11/eigen.h>
#include <pybind11/pybind11.h>
#include <pybind11/stl.h>

#include "pyinterp/detail/geometry/point.hpp"
#include "pyinterp/detail/geometry/rtree.hpp"
#include "pyinterp/detail/math/kriging.hpp"
#include "pyinterp/detail/math/radial_basis_functions.hpp"
#include "pyinterp/detail/math/window_functions.hpp"

namespace py = pybind11;
namespace geometry = pyinterp::detail::geometry;
namespace math = pyinterp::detail::math;

template <typename Point>
static auto point(const std::vector<double>& x) -> Point {
  if constexpr (boost::geometry::dimension<Point>::value == 2) {
    return Point(x.at(0), x.at(1));
  } else {
    return Point(x.at(0), x.at(1), x.at(2));
  }
}

template <typename Point>
static void declare(py::module& m, const char* name) {
  constexpr auto N = boost::geometry::dimension<Point>::value;
  using Tree = geometry::RTree<Point, double>;
  using X = std::vector<double>;
  auto cls = py::class_<Tree>(m, name, py::module_local())
      .def(py::init<>())
      .def("copy", [](const Tree& self) { return Tree(self); })
      .def("size", &Tree::size)
      .def("empty", &Tree::empty)
      .def("clear", &Tree::clear)
      .def("bounds", [](const Tree& self) {
        std::vector<X> out;
        if (auto box = self.bounds()) {
          out.resize(2);
          for (size_t i = 0; i < N; ++i) {
            out[0].push_back(geometry::point::get(box->min_corner(), i));
            out[1].push_back(geometry::point::get(box->max_corner(), i));
          }
        }
        return out;
      })
      .def("packing", [](Tree& self, const std::vector<X>& x, const X& v) {
        std::vector<typename Tree::value_t> points;
        for (size_t i = 0; i < v.size(); ++i)
          points.emplace_back(point<Point>(x[i]), v[i]);
        self.packing(points);
      })
      .def("insert", [](Tree& self, const X& x, double v) {
        self.insert(std::make_pair(point<Point>(x), v));
      })
      .def("query", [](const Tree& self, const X& x, uint32_t k) {
        return self.query(point<Point>(x), k);
      })
      .def("query_ball", [](const Tree& self, const X& x, double r) {
        return self.query_ball(point<Point>(x), r);
      })
      .def("query_within", [](const Tree& self, const X& x, uint32_t k) {
        return self.query_within(point<Point>(x), k);
      })
      .def("value", [](const Tree& self, const X& x, std::optional<double> r,
                       uint32_t k, bool within) {
        std::vector<std::pair<X, double>> out;
        for (auto& item : self.value(point<Point>(x), r, k, within)) {
          X at;
          for (size_t i = 0; i < N; ++i)
            at.push_back(geometry::point::get(item.first, i));
          out.emplace_back(at, item.second);
        }
        return out;
      })
      .def("nearest", [](const Tree& self, const X& x, double r, uint32_t k,
                         bool within) {
        auto [a, b] = within ? self.nearest_within(point<Point>(x), r, k)
                             : self.nearest(point<Point>(x), r, k);
        return std::make_pair(pyinterp::Matrix<double>(a),
                              pyinterp::Vector<double>(b));
      })
      .def("idw", [](const Tree& self, const X& x, double r, uint32_t k,
                     uint32_t p, bool within) {
        return self.inverse_distance_weighting(point<Point>(x), r, k, p,
                                               within);
      })
      .def("rbf", [](const Tree& self, const X& x, double epsilon,
                     double smooth, int kind, double r, uint32_t k,
                     bool within) {
        auto rbf = math::RBF<double>(
            epsilon, smooth, static_cast<math::RadialBasisFunction>(kind));
        return self.radial_basis_function(point<Point>(x), rbf, r, k, within);
      })
      .def("window_function", [](const Tree& self, const X& x, int kind,
                                 double arg, double r, uint32_t k,
                                 bool within) {
        auto wf = math::WindowFunction<double>(
            static_cast<math::window::Function>(kind));
        return self.window_function(point<Point>(x), wf, arg, r, k, within);
      });
  if constexpr (N == 3) {
    cls.def("kriging", [](const Tree& self, const X& x, double sigma,
                          double lambda, int kind, double r, uint32_t k,
                          bool within) {
      auto kriging = math::Kriging<double>(
          sigma, lambda, static_cast<math::CovarianceFunction>(kind));
      return self.universal_kriging(point<Point>(x), r, k, within, kriging);
    });
  }
}

PYBIND11_MODULE(vtn_rtree, m) {
  declare<geometry::Point2D<double>>(m, "Plane");
  declare<geometry::Point3D<double>>(m, "Space");
}
