// The C++ interpolators, without the windows of the Python functions.
#include <pybind11/eigen.h>
#include <pybind11/pybind11.h>
#include <pybind11/stl.h>

#include "pyinterp/detail/interpolation/factory_1d.hpp"
#include "pyinterp/detail/interpolation/factory_2d.hpp"

namespace py = pybind11;
namespace ip = pyinterp::detail::interpolation;

template <typename T>
static void declare(py::module& m, const std::string& suffix) {
  using Values = pyinterp::Vector<T>;
  using Table = pyinterp::Matrix<T>;
  using One = std::decay_t<decltype(*ip::factory_1d<T>(""))>;
  using Two = std::decay_t<decltype(*ip::factory_2d<T>(""))>;
  py::class_<One>(m, ("One" + suffix).c_str(), py::module_local())
      .def(py::init([](const std::string& kind) {
        return std::unique_ptr<One>(ip::factory_1d<T>(kind));
      }))
      .def("min_size", &One::min_size)
      .def("one", [](One& self, const Values& x, const Values& y, T at) {
        return self(x, y, at);
      })
      .def("all", [](One& self, const Values& x, const Values& y,
                     const Values& at) { return Values(self(x, y, at)); })
      .def("derivative_one",
           [](One& self, const Values& x, const Values& y, T at) {
             return self.derivative(x, y, at);
           })
      .def("derivative_all", [](One& self, const Values& x, const Values& y,
                                const Values& at) {
        return Values(self.derivative(x, y, at));
      });
  py::class_<Two>(m, ("Two" + suffix).c_str(), py::module_local())
      .def(py::init([](const std::string& kind) {
        return std::unique_ptr<Two>(ip::factory_2d<T>(kind));
      }))
      .def("min_size", &Two::min_size)
      .def("one", [](Two& self, const Values& x, const Values& y,
                     const Table& z, T u, T v) { return self(x, y, z, u, v); })
      .def("all", [](Two& self, const Values& x, const Values& y,
                     const Table& z, const Values& u, const Values& v) {
        return Values(self(x, y, z, u, v));
      });
}

PYBIND11_MODULE(vtn_interp, m) {
  declare<double>(m, "Float64");
}
