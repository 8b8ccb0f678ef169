// The C++ axis, without the Python wrapper of the library.
#include <pybind11/eigen.h>
#include <pybind11/pybind11.h>
#include <pybind11/stl.h>

#include "pyinterp/detail/axis.hpp"

namespace py = pybind11;
namespace detail = pyinterp::detail;

template <typename T>
static void declare(py::module& m, const char* name) {
  using Axis = detail::Axis<T>;
  using Values = pyinterp::Vector<T>;
  py::class_<Axis>(m, name, py::module_local())
      .def(py::init<T, T, T, T, bool>())
      .def(py::init([](const Values& values, T epsilon, bool circle) {
        return std::make_unique<Axis>(values, epsilon, circle);
      }))
      .def("copy", [](const Axis& self) { return Axis(self); })
      .def("assign", [](Axis& self, const Axis& rhs) { self = rhs; })
      .def("flip", &Axis::flip)
      .def("same", [](const Axis& self, const Axis& rhs) {
        return std::make_pair(self == rhs, self != rhs);
      })
      .def("values", [](const Axis& self) {
        std::vector<T> a, b;
        for (int64_t i = 0; i < self.size(); ++i) {
          a.push_back(self.coordinate_value(i));
          b.push_back(self(i));
        }
        return std::make_pair(a, b);
      })
      .def("slice", [](const Axis& self, int64_t start, int64_t count) {
        return Values(self.slice(start, count));
      })
      .def("size", &Axis::size)
      .def("min_value", &Axis::min_value)
      .def("max_value", &Axis::max_value)
      .def("front", &Axis::front)
      .def("back", &Axis::back)
      .def("is_regular", &Axis::is_regular)
      .def("is_circle", &Axis::is_circle)
      .def("is_angle", &Axis::is_angle)
      .def("is_ascending", &Axis::is_ascending)
      .def("increment", &Axis::increment)
      .def("normalize", [](const Axis& self, const Values& x) {
        std::vector<T> out;
        for (auto v : x) out.push_back(self.normalize_coordinate(v));
        return out;
      })
      .def("unwrap", [](const Axis& self, T x, int64_t i, int64_t j) {
        return self.unwrap(x, i, j);
      })
      .def("find_index", [](const Axis& self, const Values& x, bool bounded) {
        std::vector<int64_t> out;
        for (auto v : x) out.push_back(self.find_index(v, bounded));
        return out;
      })
      .def("find_nearest_index",
           [](const Axis& self, const Values& x, bool bounded) {
             std::vector<int64_t> out;
             for (auto v : x) out.push_back(self.find_nearest_index(v, bounded));
             return out;
           })
      .def("find_indexes", [](const Axis& self, const Values& x) {
        std::vector<std::pair<int64_t, int64_t>> out;
        for (auto v : x) {
          auto pair = self.find_indexes(v);
          out.emplace_back(pair ? std::get<0>(*pair) : -1,
                           pair ? std::get<1>(*pair) : -1);
        }
        return out;
      })
      .def("window", [](const Axis& self, T x, uint32_t size, int boundary) {
        return self.find_indexes(
            x, size, static_cast<::pyinterp::axis::Boundary>(boundary));
      });
}

PYBIND11_MODULE(vtn_axis, m) {
  declare<double>(m, "Float64");
  declare<float>(m, "Float32");
  declare<int64_t>(m, "Int64");
  m.attr("boundaries") = py::dict(
      py::arg("expand") = static_cast<int>(::pyinterp::axis::kExpand),
      py::arg("wrap") = static_cast<int>(::pyinterp::axis::kWrap),
      py::arg("sym") = static_cast<int>(::pyinterp::axis::kSym),
      py::arg("undef") = static_cast<int>(::pyinterp::axis::kUndef));
}
