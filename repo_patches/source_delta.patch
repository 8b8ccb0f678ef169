From 0ac135ffc511757b6f8e0f20ce139ad27d48ee6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:18 +0000
Subject: [PATCH 001/110] fix: regular axis lookup of non-finite or huge
 coordinates

The index was converted to an integer before being compared with the limits
of the axis: undefined for NaN, infinite and huge values, and with
bounded=True a huge coordinate was clamped to the wrong end.
---
 .../core/include/pyinterp/detail/axis/container.hpp   | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/pyinterp/core/include/pyinterp/detail/axis/container.hpp b/src/pyinterp/core/include/pyinterp/detail/axis/container.hpp
index 9a7301b..5c3baab 100644
--- a/src/pyinterp/core/include/pyinterp/detail/axis/container.hpp
+++ b/src/pyinterp/core/include/pyinterp/detail/axis/container.hpp
@@ -513,17 +513,18 @@ class Regular<T, typename std::enable_if<std::is_floating_point_v<T>>::type>
   /// @copydoc Abstract::find_index(double,bool) const
   [[nodiscard]] auto find_index(T coordinate, bool bounded) const noexcept
       -> int64_t override {
-    auto index = static_cast<int64_t>(
-        std::round((coordinate - this->start_) * inv_step_));
+    // The limits are checked before the conversion to an integer, because this
+    // conversion is undefined for NaN, infinite or out of range values.
+    auto index = std::round((coordinate - this->start_) * inv_step_);
 
-    if (index < 0) {
+    if (!(index >= 0)) {
       return bounded ? 0 : -1;
     }
 
-    if (index >= this->size_) {
+    if (index >= static_cast<T>(this->size_)) {
       return bounded ? this->size_ - 1 : -1;
     }
-    return index;
+    return static_cast<int64_t>(index);
   }
 
   /// @copydoc Abstract::flip()
-- 
2.43.0


From 41c68b28d3092035db3ae93437897c5d276fdacf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:18 +0000
Subject: [PATCH 002/110] fix: irregular axis located NaN on its first value

---
 src/pyinterp/core/include/pyinterp/detail/axis/container.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pyinterp/core/include/pyinterp/detail/axis/container.hpp b/src/pyinterp/core/include/pyinterp/detail/axis/container.hpp
index 5c3baab..015b4cc 100644
--- a/src/pyinterp/core/include/pyinterp/detail/axis/container.hpp
+++ b/src/pyinterp/core/include/pyinterp/detail/axis/container.hpp
@@ -340,6 +340,11 @@ class Irregular : public Abstract<T> {
   [[nodiscard]] constexpr auto find_index(const T coordinate,
                                           const bool bounded, int64_t size,
                                           Compare cmp) const -> int64_t {
+    // An undefined coordinate (NaN) can't be located.
+    if (coordinate != coordinate) {
+      return bounded ? 0 : -1;
+    }
+
     auto begin = points_.data();
     auto end = points_.data() + size;
     auto it = std::lower_bound(begin, end, coordinate, cmp);
-- 
2.43.0


From 381a645c09a281bd2e97851899cda5dbc404ab23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:54 +0000
Subject: [PATCH 003/110] fix: interpolation across the seam of a circular axis

The second corner of the cell was not expressed in the same revolution as the
first one between the last and the first longitude of the axis, nor on the
nodes of a decreasing axis: the weights were wrong.
---
 .../core/include/pyinterp/bivariate.hpp       |  6 ++---
 .../core/include/pyinterp/detail/axis.hpp     | 22 +++++++++++++++++++
 .../core/include/pyinterp/quadrivariate.hpp   |  6 ++---
 .../core/include/pyinterp/trivariate.hpp      |  6 ++---
 4 files changed, 31 insertions(+), 9 deletions(-)

diff --git a/src/pyinterp/core/include/pyinterp/bivariate.hpp b/src/pyinterp/core/include/pyinterp/bivariate.hpp
index bc36a5a..81390d5 100644
--- a/src/pyinterp/core/include/pyinterp/bivariate.hpp
+++ b/src/pyinterp/core/include/pyinterp/bivariate.hpp
@@ -83,10 +83,10 @@ inline auto _bivariate(
     auto [ix0, ix1] = *x_indexes;
     auto [iy0, iy1] = *y_indexes;
 
-    auto x0 = x_axis(ix0);
-    auto p = Point<Coordinate>(x_axis.normalize_coordinate(x, x0), y);
+    auto [px, x0, x1] = x_axis.unwrap(x, ix0, ix1);
+    auto p = Point<Coordinate>(px, y);
     auto p0 = Point<Coordinate>(x0, y_axis(iy0));
-    auto p1 = Point<Coordinate>(x_axis(ix1), y_axis(iy1));
+    auto p1 = Point<Coordinate>(x1, y_axis(iy1));
 
     return interpolator->evaluate(
         p, p0, p1, static_cast<Coordinate>(grid.value(ix0, iy0)),
diff --git a/src/pyinterp/core/include/pyinterp/detail/axis.hpp b/src/pyinterp/core/include/pyinterp/detail/axis.hpp
index 7e5e0a2..56ebdfe 100644
--- a/src/pyinterp/core/include/pyinterp/detail/axis.hpp
+++ b/src/pyinterp/core/include/pyinterp/detail/axis.hpp
@@ -265,6 +265,28 @@ class Axis {
     return normalize_coordinate(coordinate, axis_->min_value());
   }
 
+  /// Returns the coordinate and the values of the two axis elements framing it
+  /// (as found by find_indexes) expressed in the same revolution of the circle.
+  /// If this axis does not represent a circle, the values are unchanged.
+  ///
+  /// @param coordinate position in this coordinate system
+  /// @param i0 index of the first element framing the coordinate
+  /// @param i1 index of the second element framing the coordinate
+  /// @return the tuple (coordinate, value of i0, value of i1)
+  [[nodiscard]] constexpr auto unwrap(const T coordinate, const int64_t i0,
+                                      const int64_t i1) const
+      -> std::tuple<T, T, T> {
+    auto x = normalize_coordinate(coordinate);
+    auto x0 = (*this)(i0);
+    auto x1 = (*this)(i1);
+    if (is_circle_ && x > x0 && x > x1) {
+      // The coordinate is located between the last and the first element of the
+      // circle.
+      (x0 < x1 ? x0 : x1) += circle_;
+    }
+    return std::make_tuple(x, x0, x1);
+  }
+
   /// Given a coordinate position, find what axis element contains it.
   ///
   /// @param coordinate position in this coordinate system
diff --git a/src/pyinterp/core/include/pyinterp/quadrivariate.hpp b/src/pyinterp/core/include/pyinterp/quadrivariate.hpp
index fa3b694..b066ba7 100644
--- a/src/pyinterp/core/include/pyinterp/quadrivariate.hpp
+++ b/src/pyinterp/core/include/pyinterp/quadrivariate.hpp
@@ -62,10 +62,10 @@ inline auto _quadrivariate(
     auto [iu0, iu1] = *u_indexes;
 
     // The fourth coordinate is not used by the 3D interpolator.
-    auto x0 = x_axis(ix0);
-    auto p = Point<Coordinate>(x_axis.normalize_coordinate(x, x0), y, z);
+    auto [px, x0, x1] = x_axis.unwrap(x, ix0, ix1);
+    auto p = Point<Coordinate>(px, y, z);
     auto p0 = Point<Coordinate>(x0, y_axis(iy0), z_axis(iz0));
-    auto p1 = Point<Coordinate>(x_axis(ix1), y_axis(iy1), z_axis(iz1));
+    auto p1 = Point<Coordinate>(x1, y_axis(iy1), z_axis(iz1));
 
     auto u0 = pyinterp::detail::math::trivariate<Point, Coordinate>(
         p, p0, p1, static_cast<Coordinate>(grid.value(ix0, iy0, iz0, iu0)),
diff --git a/src/pyinterp/core/include/pyinterp/trivariate.hpp b/src/pyinterp/core/include/pyinterp/trivariate.hpp
index 8d53c30..8342bfd 100644
--- a/src/pyinterp/core/include/pyinterp/trivariate.hpp
+++ b/src/pyinterp/core/include/pyinterp/trivariate.hpp
@@ -42,10 +42,10 @@ inline auto _trivariate(const Grid3D<Type, AxisType> &grid, const Coordinate &x,
     auto [iz0, iz1] = *z_indexes;
 
     // The fourth coordinate is not used by the 3D interpolator.
-    auto x0 = x_axis(ix0);
-    auto p = Point<Coordinate>(x_axis.normalize_coordinate(x, x0), y, z);
+    auto [px, x0, x1] = x_axis.unwrap(x, ix0, ix1);
+    auto p = Point<Coordinate>(px, y, z);
     auto p0 = Point<Coordinate>(x0, y_axis(iy0), z_axis(iz0));
-    auto p1 = Point<Coordinate>(x_axis(ix1), y_axis(iy1), z_axis(iz1));
+    auto p1 = Point<Coordinate>(x1, y_axis(iy1), z_axis(iz1));
 
     return pyinterp::detail::math::trivariate<Point, Coordinate>(
         p, p0, p1, static_cast<Coordinate>(grid.value(ix0, iy0, iz0)),
-- 
2.43.0


From ec4667526a680ee24093f01aa59c180d3a84c5f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:28 +0000
Subject: [PATCH 004/110] fix: decreasing irregular longitudes were never
 recognised as a circle

The mean increment compared with the gap at the seam is negative on such an
axis.
---
 src/pyinterp/core/include/pyinterp/detail/axis.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyinterp/core/include/pyinterp/detail/axis.hpp b/src/pyinterp/core/include/pyinterp/detail/axis.hpp
index 56ebdfe..e126a50 100644
--- a/src/pyinterp/core/include/pyinterp/detail/axis.hpp
+++ b/src/pyinterp/core/include/pyinterp/detail/axis.hpp
@@ -537,7 +537,7 @@ class Axis {
         auto increment = (axis_->back() - axis_->front()) /
                          static_cast<T>(axis_->size() - 1);
         is_circle_ = std::fabs((axis_->max_value() - axis_->min_value()) -
-                               circle_) <= increment;
+                               circle_) <= std::fabs(increment);
       }
     }
   }
-- 
2.43.0


From fdada42089d4060756517c2ed3b60d59e8d5893d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:28 +0000
Subject: [PATCH 005/110] fix: nearest index across the seam of a circular axis

On a decreasing axis the first and the last index were swapped, and with
bounded=True the coordinate was clamped to the last value instead of being
located on the nearest one.
---
 src/pyinterp/core/include/pyinterp/detail/axis.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/pyinterp/core/include/pyinterp/detail/axis.hpp b/src/pyinterp/core/include/pyinterp/detail/axis.hpp
index e126a50..4399484 100644
--- a/src/pyinterp/core/include/pyinterp/detail/axis.hpp
+++ b/src/pyinterp/core/include/pyinterp/detail/axis.hpp
@@ -316,11 +316,13 @@ class Axis {
                                                   const bool bounded) const
       -> int64_t {
     coordinate = normalize_coordinate(coordinate);
-    auto result = axis_->find_index(coordinate, bounded);
+    auto result = axis_->find_index(coordinate, bounded && !is_circle_);
     if (result == -1 && is_circle_) {
-      result = (coordinate - max_value()) < (min_value() + 360 - coordinate)
-                   ? this->size() - 1
-                   : 0;
+      // The coordinate is located between the maximum and the minimum value of
+      // the axis.
+      const auto nearest_is_max =
+          (coordinate - max_value()) < (min_value() + 360 - coordinate);
+      result = nearest_is_max == is_ascending() ? this->size() - 1 : 0;
     }
     return result;
   }
-- 
2.43.0


From 9743a57393b244828e51e822f1762ccf3a2357c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:37 +0000
Subject: [PATCH 006/110] fix: circular axes located NaN and infinite
 longitudes

They were located on the first value and framed by the cell across the seam,
and the nearest neighbour interpolation returned a value for them.
---
 src/pyinterp/core/include/pyinterp/detail/axis.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/pyinterp/core/include/pyinterp/detail/axis.hpp b/src/pyinterp/core/include/pyinterp/detail/axis.hpp
index 4399484..5215bfa 100644
--- a/src/pyinterp/core/include/pyinterp/detail/axis.hpp
+++ b/src/pyinterp/core/include/pyinterp/detail/axis.hpp
@@ -318,6 +318,10 @@ class Axis {
     coordinate = normalize_coordinate(coordinate);
     auto result = axis_->find_index(coordinate, bounded && !is_circle_);
     if (result == -1 && is_circle_) {
+      // An undefined coordinate (NaN) can't be located.
+      if (coordinate != coordinate) {
+        return bounded ? 0 : -1;
+      }
       // The coordinate is located between the maximum and the minimum value of
       // the axis.
       const auto nearest_is_max =
@@ -345,8 +349,9 @@ class Axis {
     /// If the value is outside the circle, then the value is between the last
     /// and first index.
     if (i0 == -1) {
-      return is_circle_ ? std::make_tuple(static_cast<int64_t>(length - 1), 0LL)
-                        : std::optional<std::tuple<int64_t, int64_t>>();
+      return is_circle_ && coordinate == coordinate
+                 ? std::make_tuple(static_cast<int64_t>(length - 1), 0LL)
+                 : std::optional<std::tuple<int64_t, int64_t>>();
     }
 
     // Given the delta between the found coordinate and the given coordinate,
-- 
2.43.0


From f8d82cf93343d3b255dc6ef0699f2e91a761ef87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:21 +0000
Subject: [PATCH 007/110] fix: nearest index on decreasing regular integer and
 temporal axes

---
 .../pyinterp/detail/axis/container.hpp        | 45 ++++++++++---------
 1 file changed, 24 insertions(+), 21 deletions(-)

diff --git a/src/pyinterp/core/include/pyinterp/detail/axis/container.hpp b/src/pyinterp/core/include/pyinterp/detail/axis/container.hpp
index 015b4cc..f098ffb 100644
--- a/src/pyinterp/core/include/pyinterp/detail/axis/container.hpp
+++ b/src/pyinterp/core/include/pyinterp/detail/axis/container.hpp
@@ -549,41 +549,44 @@ template <typename T>
 class Regular<T, typename std::enable_if<std::is_integral_v<T>>::type>
     : public AbstractRegular<T> {
  public:
-  /// @copydoc AbstractRegular::AbstractRegular(const T start, const T stop,
-  /// const T num)
-  Regular(const T start, const T stop, const T num)
-      // The inverse step of this axis is stored in order to optimize the search
-      // for an index for a given value by avoiding a division.
-      : AbstractRegular<T>(start, stop, num), step_2_(this->step_ >> 1) {}
+  using AbstractRegular<T>::AbstractRegular;
 
   /// @copydoc Abstract::find_index(double,bool) const
   [[nodiscard]] constexpr auto find_index(T coordinate,
                                           bool bounded) const noexcept
       -> int64_t override {
-    auto index =
-        static_cast<int64_t>(round((coordinate - this->start_), this->step_));
+    // Distances are computed with unsigned integers, because the difference
+    // between two signed integers may not be representable.
+    const auto before = this->step_ > 0 ? coordinate < this->start_
+                                        : coordinate > this->start_;
+    const auto distance = coordinate < this->start_
+                              ? subtract(this->start_, coordinate)
+                              : subtract(coordinate, this->start_);
+    const auto step = this->step_ > 0 ? static_cast<uint64_t>(this->step_)
+                                      : subtract(T(0), this->step_);
+
+    // Divide and round to the closest integer (halfway cases away from zero)
+    auto index = distance / step;
+    const auto remainder = distance % step;
+    if (remainder >= step - remainder) {
+      ++index;
+    }
 
-    if (index < 0) {
+    if (before && index > 0) {
       return bounded ? 0 : -1;
     }
 
-    if (index >= this->size_) {
+    if (index >= static_cast<uint64_t>(this->size_)) {
       return bounded ? this->size_ - 1 : -1;
     }
-    return index;
+    return static_cast<int64_t>(index);
   }
 
  private:
-  /// The absolute value of half the pitch of this axis. This value is used to
-  /// search for the nearest index.
-  T step_2_{};
-
-  /// Divide positive or negative dividend by positive divisor and round to
-  /// closest integer
-  [[nodiscard]] constexpr auto round(int64_t numerator,
-                                     int64_t denominator) const -> int64_t {
-    return numerator > 0 ? (numerator + step_2_) / denominator
-                         : (numerator - step_2_) / denominator;
+  /// Difference between two integers, with lhs >= rhs
+  [[nodiscard]] static constexpr auto subtract(const T lhs, const T rhs)
+      -> uint64_t {
+    return static_cast<uint64_t>(lhs) - static_cast<uint64_t>(rhs);
   }
 };
 
-- 
2.43.0


From 63c381944fb1e4f07f31313a04e670b5af406e23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:35 +0000
Subject: [PATCH 008/110] fix: nearest z_method on temporal axes overflowed
 64-bit integers

---
 .../core/include/pyinterp/detail/math/nearest.hpp         | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pyinterp/core/include/pyinterp/detail/math/nearest.hpp b/src/pyinterp/core/include/pyinterp/detail/math/nearest.hpp
index 0f3456c..e540d63 100644
--- a/src/pyinterp/core/include/pyinterp/detail/math/nearest.hpp
+++ b/src/pyinterp/core/include/pyinterp/detail/math/nearest.hpp
@@ -17,10 +17,10 @@ namespace pyinterp::detail::math {
 template <typename T, typename U = T>
 constexpr auto nearest(const T &x, const T &x0, const T &x1, const U &y0,
                        const U &y1) noexcept -> U {
-  // we use a comparable distance, there's no need to calculate the square root
-  // here
-  auto dx0 = sqr(x0 - x);
-  auto dx1 = sqr(x1 - x);
+  // The squared distances are not used, because they can overflow with integer
+  // coordinates (dates)
+  auto dx0 = x0 < x ? x - x0 : x0 - x;
+  auto dx1 = x1 < x ? x - x1 : x1 - x;
 
   return dx0 < dx1 ? y0 : y1;
 }
-- 
2.43.0


From 3419577dc473f0623e4e862c64b7d62cde9dcb46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:46 +0000
Subject: [PATCH 009/110] fix: unpickled regular axes differed from the
 original by a rounding error

---
 src/pyinterp/core/include/pyinterp/axis.hpp      | 16 +++++++++++-----
 .../include/pyinterp/detail/axis/container.hpp   | 13 +++++++++++++
 2 files changed, 24 insertions(+), 5 deletions(-)

diff --git a/src/pyinterp/core/include/pyinterp/axis.hpp b/src/pyinterp/core/include/pyinterp/axis.hpp
index b846c03..0fa5da4 100644
--- a/src/pyinterp/core/include/pyinterp/axis.hpp
+++ b/src/pyinterp/core/include/pyinterp/axis.hpp
@@ -203,7 +203,7 @@ class Axis : public detail::Axis<T>,
       if (ptr != nullptr) {
         return pybind11::make_tuple(detail::axis::REGULAR, ptr->front(),
                                     ptr->back(), ptr->size(),
-                                    this->is_circle());
+                                    this->is_circle(), ptr->step());
       }
     }
     // Irregular
@@ -248,12 +248,18 @@ class Axis : public detail::Axis<T>,
                     ndarray.mutable_data(), ndarray.size()))),
             state[2].cast<bool>());
       }
-      case detail::axis::REGULAR:
+      case detail::axis::REGULAR: {
+        auto axis = std::make_unique<detail::axis::container::Regular<T>>(
+            state[1].cast<T>(), state[2].cast<T>(), state[3].cast<T>());
+        // The step calculated from the ends of the axis may differ from the
+        // original one by a rounding error.
+        if (state.size() > 5) {
+          axis->step(state[5].cast<T>());
+        }
         return Axis(std::unique_ptr<detail::axis::container::Abstract<T>>(
-                        new detail::axis::container::Regular<T>(
-                            state[1].cast<T>(), state[2].cast<T>(),
-                            state[3].cast<T>())),
+                        std::move(axis)),
                     state[4].cast<bool>());
+      }
       default:
         throw std::invalid_argument("invalid state");
     }
diff --git a/src/pyinterp/core/include/pyinterp/detail/axis/container.hpp b/src/pyinterp/core/include/pyinterp/detail/axis/container.hpp
index f098ffb..de334cd 100644
--- a/src/pyinterp/core/include/pyinterp/detail/axis/container.hpp
+++ b/src/pyinterp/core/include/pyinterp/detail/axis/container.hpp
@@ -426,6 +426,11 @@ class AbstractRegular : public Abstract<T> {
   /// @return increment value
   [[nodiscard]] auto constexpr step() const -> T { return step_; }
 
+  /// Set the step between two successive values.
+  ///
+  /// @param step increment value
+  virtual auto step(const T step) -> void { step_ = step; }
+
   /// @copydoc Abstract::flip()
   auto flip() -> void override {
     start_ = back();
@@ -532,6 +537,14 @@ class Regular<T, typename std::enable_if<std::is_floating_point_v<T>>::type>
     return static_cast<int64_t>(index);
   }
 
+  using AbstractRegular<T>::step;
+
+  /// @copydoc AbstractRegular::step(const T)
+  auto step(const T step) -> void override {
+    AbstractRegular<T>::step(step);
+    inv_step_ = T(1.0) / step;
+  }
+
   /// @copydoc Abstract::flip()
   auto flip() -> void override {
     AbstractRegular<T>::flip();
-- 
2.43.0


From 5e1ad978f16c3cfd425103735b81f7bb043b510b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:45 +0000
Subject: [PATCH 010/110] fix: Akima interpolation used the slopes of another
 interval

The slopes are stored with two extra leading points, but the interpolation
read them without that shift (the curve did not go through the knots), and
the slopes of the first and last two knots ignored the boundary conditions.
---
 .../pyinterp/detail/interpolation/akima.hpp    | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/pyinterp/core/include/pyinterp/detail/interpolation/akima.hpp b/src/pyinterp/core/include/pyinterp/detail/interpolation/akima.hpp
index bca47a6..2a4f10b 100644
--- a/src/pyinterp/core/include/pyinterp/detail/interpolation/akima.hpp
+++ b/src/pyinterp/core/include/pyinterp/detail/interpolation/akima.hpp
@@ -74,7 +74,7 @@ auto Akima<T>::compute_coefficients(const Vector<T>& xa, const Vector<T>& ya)
   boundary_condition(m, size);
 
   // Compute the spline slopes of the lines between the points.
-  for (Eigen::Index ix = 2; ix < size - 2; ++ix) {
+  for (Eigen::Index ix = 0; ix < size; ++ix) {
     auto denominator =
         std::abs(m[ix + 1] - m[ix]) + std::abs(m[ix - 1] - m[ix - 2]);
     if (denominator != 0) {
@@ -85,10 +85,6 @@ auto Akima<T>::compute_coefficients(const Vector<T>& xa, const Vector<T>& ya)
       s_(ix) = (m[ix - 1] + m[ix]) * 0.5;
     }
   }
-  s_(0) = m[0];
-  s_(1) = (m[0] + m[2]) * 0.5;
-  s_(size - 2) = (m[size - 3] + m[size - 1]) * 0.5;
-  s_(size - 1) = m[size - 1];
 }
 
 template <typename T>
@@ -103,8 +99,10 @@ constexpr auto Akima<T>::interpolate_(const Vector<T>& xa, const Vector<T>& ya,
   const auto h = x - xa(i0);
   const auto ai = ya(i0);
   const auto bi = s_[i0];
-  const auto ci = (3 * m_[i0] - 2 * s_[i0] - s_[i1]) / dx;
-  const auto di = (s_[i0] + s_[i1] - 2 * m_[i0]) / (dx * dx);
+  // The slopes are shifted by the two points added at the beginning.
+  const auto mi = m_[i0 + 2];
+  const auto ci = (3 * mi - 2 * s_[i0] - s_[i1]) / dx;
+  const auto di = (s_[i0] + s_[i1] - 2 * mi) / (dx * dx);
   return ai + h * (bi + h * (ci + h * di));
 }
 
@@ -119,8 +117,10 @@ constexpr auto Akima<T>::derivative_(const Vector<T>& xa, const Vector<T>& ya,
   const auto dx = xa(i1) - xa(i0);
   const auto h = x - xa(i0);
   const auto bi = s_[i0];
-  const auto ci = (3 * m_[i0] - 2 * s_[i0] - s_[i1]) / dx;
-  const auto di = (s_[i0] + s_[i1] - 2 * m_[i0]) / (dx * dx);
+  // The slopes are shifted by the two points added at the beginning.
+  const auto mi = m_[i0 + 2];
+  const auto ci = (3 * mi - 2 * s_[i0] - s_[i1]) / dx;
+  const auto di = (s_[i0] + s_[i1] - 2 * mi) / (dx * dx);
   return bi + h * (2 * ci + h * 3 * di);
 }
 
-- 
2.43.0


From b7c39ad6a7105d49692b4bc2d7fd7f18777323ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:46 +0000
Subject: [PATCH 011/110] fix: interpolate1d ignored bounds_error and threw
 numbers out of the axis

The bounded lookup never fails, so bounds_error had no effect, and some
models threw a floating point number, which is not an exception, for a point
out of the axis.
---
 .../pyinterp/detail/interpolation/akima.hpp     |  4 ++--
 .../pyinterp/detail/interpolation/bicubic.hpp   |  2 +-
 .../pyinterp/detail/interpolation/bilinear.hpp  |  2 +-
 .../detail/interpolation/polynomial.hpp         |  4 ++--
 .../core/include/pyinterp/interpolate1d.hpp     | 17 +++++++++++++----
 5 files changed, 19 insertions(+), 10 deletions(-)

diff --git a/src/pyinterp/core/include/pyinterp/detail/interpolation/akima.hpp b/src/pyinterp/core/include/pyinterp/detail/interpolation/akima.hpp
index 2a4f10b..294c651 100644
--- a/src/pyinterp/core/include/pyinterp/detail/interpolation/akima.hpp
+++ b/src/pyinterp/core/include/pyinterp/detail/interpolation/akima.hpp
@@ -92,7 +92,7 @@ constexpr auto Akima<T>::interpolate_(const Vector<T>& xa, const Vector<T>& ya,
                                       const T& x) const -> T {
   auto search = this->search(xa, x);
   if (!search) {
-    throw std::numeric_limits<T>::quiet_NaN();
+    return std::numeric_limits<T>::quiet_NaN();
   }
   auto [i0, i1] = *search;
   const auto dx = xa(i1) - xa(i0);
@@ -111,7 +111,7 @@ constexpr auto Akima<T>::derivative_(const Vector<T>& xa, const Vector<T>& ya,
                                      const T& x) const -> T {
   auto search = this->search(xa, x);
   if (!search) {
-    throw std::numeric_limits<T>::quiet_NaN();
+    return std::numeric_limits<T>::quiet_NaN();
   }
   auto [i0, i1] = *search;
   const auto dx = xa(i1) - xa(i0);
diff --git a/src/pyinterp/core/include/pyinterp/detail/interpolation/bicubic.hpp b/src/pyinterp/core/include/pyinterp/detail/interpolation/bicubic.hpp
index 12f7ef9..7adca3f 100644
--- a/src/pyinterp/core/include/pyinterp/detail/interpolation/bicubic.hpp
+++ b/src/pyinterp/core/include/pyinterp/detail/interpolation/bicubic.hpp
@@ -78,7 +78,7 @@ constexpr auto Bicubic<T>::interpolate_(const Vector<T> &xa,
   auto search_x = this->search(xa, x);
   auto search_y = this->search(ya, y);
   if (!search_x || !search_y) {
-    throw std::numeric_limits<T>::quiet_NaN();
+    return std::numeric_limits<T>::quiet_NaN();
   }
   const auto [i0, i1] = *search_x;
   const auto [j0, j1] = *search_y;
diff --git a/src/pyinterp/core/include/pyinterp/detail/interpolation/bilinear.hpp b/src/pyinterp/core/include/pyinterp/detail/interpolation/bilinear.hpp
index 80fdc43..25b94fc 100644
--- a/src/pyinterp/core/include/pyinterp/detail/interpolation/bilinear.hpp
+++ b/src/pyinterp/core/include/pyinterp/detail/interpolation/bilinear.hpp
@@ -38,7 +38,7 @@ constexpr auto Bilinear<T>::interpolate_(const Vector<T> &xa,
   auto search_x = this->search(xa, x);
   auto search_y = this->search(ya, y);
   if (!search_x || !search_y) {
-    throw std::numeric_limits<T>::quiet_NaN();
+    return std::numeric_limits<T>::quiet_NaN();
   }
   auto [i0, i1] = *search_x;
   auto [j0, j1] = *search_y;
diff --git a/src/pyinterp/core/include/pyinterp/detail/interpolation/polynomial.hpp b/src/pyinterp/core/include/pyinterp/detail/interpolation/polynomial.hpp
index 4fea5ea..60eddb6 100644
--- a/src/pyinterp/core/include/pyinterp/detail/interpolation/polynomial.hpp
+++ b/src/pyinterp/core/include/pyinterp/detail/interpolation/polynomial.hpp
@@ -97,7 +97,7 @@ constexpr auto Polynomial<T>::interpolate_(const Vector<T> &xa,
                                            const T &x) const -> T {
   auto search = this->search(xa, x);
   if (!search) {
-    throw std::numeric_limits<T>::quiet_NaN();
+    return std::numeric_limits<T>::quiet_NaN();
   }
   auto size = xa.size();
   auto y = work_[size - 1];
@@ -112,7 +112,7 @@ auto Polynomial<T>::derivative_(const Vector<T> &xa, const Vector<T> &ya,
                                 const T &x) const -> T {
   auto search = this->search(xa, x);
   if (!search) {
-    throw std::numeric_limits<T>::quiet_NaN();
+    return std::numeric_limits<T>::quiet_NaN();
   }
   auto coefficients = taylor(xa, x);
   return coefficients(1);
diff --git a/src/pyinterp/core/include/pyinterp/interpolate1d.hpp b/src/pyinterp/core/include/pyinterp/interpolate1d.hpp
index 4939501..47003f4 100644
--- a/src/pyinterp/core/include/pyinterp/interpolate1d.hpp
+++ b/src/pyinterp/core/include/pyinterp/interpolate1d.hpp
@@ -53,8 +53,13 @@ auto interpolate_1d(const pyinterp::Axis<double>& x,
   auto result = Vector<double>(xi.size());
 
   for (int64_t ix = 0; ix < xi.size(); ++ix) {
-    // Nearest index of the current value
-    auto index = axis->find_index(xi(ix), true);
+    // Nearest index of the current value. The lookup is bounded, so a value
+    // beyond the ends of the axis must be discarded here.
+    const auto inside =
+        (xi(ix) >= axis->min_value() && xi(ix) <= axis->max_value()) ||
+        detail::math::is_same(xi(ix), axis->min_value(), 1e-12) ||
+        detail::math::is_same(xi(ix), axis->max_value(), 1e-12);
+    const auto index = inside ? axis->find_index(xi(ix), true) : -1;
 
     if (index == -1) {
       if (bounds_error) {
@@ -72,8 +77,12 @@ auto interpolate_1d(const pyinterp::Axis<double>& x,
     // Select the data in the current window
     const Vector<double> yw = y.segment(start, n);
 
-    // Interpolation of the current value
-    result(ix) = (*interpolator)(axis->slice(start, n), yw, xi(ix));
+    // Interpolation of the current value (the ends of the axis may differ from
+    // the values given to build it by a rounding error).
+    const Vector<double> xw = axis->slice(start, n);
+    result(ix) = (*interpolator)(
+        xw, yw,
+        axis->is_ascending() ? std::clamp(xi(ix), xw(0), xw(n - 1)) : xi(ix));
   }
   return result;
 }
-- 
2.43.0


From f29c8396732d07ab48418307afab2a565c224a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:30 +0000
Subject: [PATCH 012/110] fix: periodic spline on three points or after a
 larger window

Three points read and wrote before the start of the work vectors, and a window
smaller than the previous one was solved with the matrix of the larger one.
---
 .../detail/interpolation/cspline_periodic.hpp       | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/pyinterp/core/include/pyinterp/detail/interpolation/cspline_periodic.hpp b/src/pyinterp/core/include/pyinterp/detail/interpolation/cspline_periodic.hpp
index 2847961..36e3f87 100644
--- a/src/pyinterp/core/include/pyinterp/detail/interpolation/cspline_periodic.hpp
+++ b/src/pyinterp/core/include/pyinterp/detail/interpolation/cspline_periodic.hpp
@@ -47,6 +47,14 @@ constexpr auto CSplinePeriodic<T>::solve_symmetric_cyclic_tridiagonal(T *x)
     x[0] = this->b_(0) / this->A_(0, 0);
     return;
   }
+  if (size == 2) {
+    // Both off-diagonal coefficients of the cyclic system coincide.
+    const auto det =
+        this->A_(0, 0) * this->A_(1, 1) - this->A_(0, 1) * this->A_(1, 0);
+    x[0] = (this->A_(1, 1) * this->b_(0) - this->A_(0, 1) * this->b_(1)) / det;
+    x[1] = (this->A_(0, 0) * this->b_(1) - this->A_(1, 0) * this->b_(0)) / det;
+    return;
+  }
 
   alpha_(0) = this->A_(0, 0);
   gamma_(0) = this->A_(0, 1) / alpha_(0);
@@ -96,7 +104,7 @@ auto CSplinePeriodic<T>::compute_coefficients(const Vector<T> &xa,
                                               const Vector<T> &ya) -> void {
   Interpolator1D<T>::compute_coefficients(xa, ya);
   auto size = xa.size();
-  if (this->x_.size() < size) {
+  if (this->x_.size() != size) {
     this->A_.resize(size - 1, size - 1);
     this->b_.resize(size - 1);
     this->x_.resize(size);
@@ -132,6 +140,9 @@ auto CSplinePeriodic<T>::compute_coefficients(const Vector<T> &xa,
   this->A_(i, 0) = h_i1;
   this->A_(i, i) = 2 * (h_i0 + h_i1);
   this->A_(0, i) = h_i1;
+  if (size == 3) {
+    this->A_(0, 1) = this->A_(1, 0) = h_i0 + h_i1;
+  }
   this->b_(i) = 3 * (y_i1 * g_i1 - y_i0 * g_i0);
   solve_symmetric_cyclic_tridiagonal(this->x_.data() + 1);
   this->x_(0) = this->x_(size - 1);
-- 
2.43.0


From 82c137abe1e12072bdc033d046aa64e095e81be8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:43 +0000
Subject: [PATCH 013/110] fix: negative half window of interpolate1d read out
 of the vectors

---
 src/pyinterp/core/include/pyinterp/interpolate1d.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pyinterp/core/include/pyinterp/interpolate1d.hpp b/src/pyinterp/core/include/pyinterp/interpolate1d.hpp
index 47003f4..6a48be6 100644
--- a/src/pyinterp/core/include/pyinterp/interpolate1d.hpp
+++ b/src/pyinterp/core/include/pyinterp/interpolate1d.hpp
@@ -44,6 +44,9 @@ auto interpolate_1d(const pyinterp::Axis<double>& x,
   if (x.size() != y.size()) {
     throw std::invalid_argument("x and y must have the same size");
   }
+  if (half_window_size < 0) {
+    throw std::invalid_argument("half_window_size must be positive");
+  }
   const auto interpolator = detail::interpolation::factory_1d<double>(kind);
 
   // Downcast the axis to the raw C++ type
-- 
2.43.0


From c90eb41b18fee5017c11705b1540184a20f3cbff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:05 +0000
Subject: [PATCH 014/110] fix: divided differences of the polynomial
 interpolation

Differences of order two and above were divided by the length of one interval
instead of the span of the points, and read values already updated in place;
the Taylor coefficients were accumulated in uninitialised memory.
---
 .../detail/interpolation/polynomial.hpp       | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/src/pyinterp/core/include/pyinterp/detail/interpolation/polynomial.hpp b/src/pyinterp/core/include/pyinterp/detail/interpolation/polynomial.hpp
index 60eddb6..63a6132 100644
--- a/src/pyinterp/core/include/pyinterp/detail/interpolation/polynomial.hpp
+++ b/src/pyinterp/core/include/pyinterp/detail/interpolation/polynomial.hpp
@@ -60,23 +60,20 @@ constexpr auto Polynomial<T>::compute_coefficients(const Vector<T> &xa,
   if (work_.size() < size) {
     work_.resize(size);
   }
-  work_[0] = ya[0];
-  work_.segment(1, size - 1) =
-      (ya.segment(1, size - 1) - ya.segment(0, size - 1)).array() /
-      (xa.segment(1, size - 1) - xa.segment(0, size - 1)).array();
-  for (Eigen::Index ix = 2; ix < size; ix++) {
-    work_.segment(ix, size - ix) =
-        (work_.segment(ix, size - ix) - work_.segment(ix - 1, size - ix))
-            .array() /
-        (xa.segment(ix, size - ix) - xa.segment(ix - 1, size - ix)).array();
+  // Newton's divided differences, computed in place from the last to the first.
+  work_.segment(0, size) = ya;
+  for (Eigen::Index ix = 1; ix < size; ix++) {
+    for (Eigen::Index jx = size - 1; jx >= ix; --jx) {
+      work_(jx) = (work_(jx) - work_(jx - 1)) / (xa(jx) - xa(jx - ix));
+    }
   }
 }
 
 template <typename T>
 auto Polynomial<T>::taylor(const Vector<T> &xa, const T &x) const -> Vector<T> {
   auto size = xa.size();
-  auto c = Vector<T>(size);
-  auto w = Vector<T>(size);
+  Vector<T> c = Vector<T>::Zero(size);
+  Vector<T> w = Vector<T>::Zero(size);
   w(size - 1) = T(1);
   c(0) = work_(0);
   for (Eigen::Index ix = size - 1; ix--;) {
-- 
2.43.0


From 3a2ad4e309395c547312ae212d53eb1484129498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:20 +0000
Subject: [PATCH 015/110] fix: normalized angles could be equal to the excluded
 upper bound

An angle a rounding error below the minimum was mapped onto min + 360.
---
 src/pyinterp/core/include/pyinterp/detail/math.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pyinterp/core/include/pyinterp/detail/math.hpp b/src/pyinterp/core/include/pyinterp/detail/math.hpp
index a233c4b..8949eeb 100644
--- a/src/pyinterp/core/include/pyinterp/detail/math.hpp
+++ b/src/pyinterp/core/include/pyinterp/detail/math.hpp
@@ -127,7 +127,10 @@ constexpr auto remainder(const T &x, const T &y) noexcept -> T {
 template <typename T>
 constexpr auto normalize_angle(const T &x, const T &min,
                                const T &circle) noexcept -> T {
-  return remainder(x - min, circle) + min;
+  const auto result = remainder(x - min, circle) + min;
+  // The sum is rounded to the upper bound, which is excluded, if the angle is
+  // just below the minimum.
+  return result >= min + circle ? min : result;
 }
 
 /// Evaluate the sine function with the argument in degrees
-- 
2.43.0


From 968775d60c0c1fc22473967f8342445b619bfb39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:40 +0000
Subject: [PATCH 016/110] fix: windowed interpolation next to a node of a
 circular axis

The coordinate was normalized again from the window, not from the axis: after
a whole turn, a longitude equal to a node up to rounding fell out of the
window and the result was undefined.
---
 src/pyinterp/core/module/bicubic.cpp | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/pyinterp/core/module/bicubic.cpp b/src/pyinterp/core/module/bicubic.cpp
index a097442..d02e883 100644
--- a/src/pyinterp/core/module/bicubic.cpp
+++ b/src/pyinterp/core/module/bicubic.cpp
@@ -61,7 +61,8 @@ auto bicubic(const Grid2D<DataType> &grid, const py::array_t<double> &x,
     auto except = std::exception_ptr(nullptr);
 
     // Access to the shared pointer outside the loop to avoid data races
-    const auto is_angle = grid.x()->is_angle();
+    const auto &x_axis = *grid.x();
+    const auto is_angle = x_axis.is_angle();
 
     detail::dispatch(
         [&](const size_t start, const size_t end) {
@@ -77,7 +78,10 @@ auto bicubic(const Grid2D<DataType> &grid, const py::array_t<double> &x,
                   // data race problem here.
                   load_frame(grid, xi, yi, boundary_type, bounds_error, frame)
                       ? interpolator.interpolate(
-                            is_angle ? frame.normalize_angle(xi) : xi, yi,
+                            is_angle ? frame.normalize_angle(
+                                           x_axis.normalize_coordinate(xi))
+                                     : xi,
+                            yi,
                             frame)
                       : std::numeric_limits<double>::quiet_NaN();
             }
@@ -121,7 +125,8 @@ auto bicubic_3d(const Grid3D<DataType, AxisType> &grid,
     auto except = std::exception_ptr(nullptr);
 
     // Access to the shared pointer outside the loop to avoid data races
-    const auto is_angle = grid.x()->is_angle();
+    const auto &x_axis = *grid.x();
+    const auto is_angle = x_axis.is_angle();
 
     detail::dispatch(
         [&](const size_t start, const size_t end) {
@@ -137,7 +142,9 @@ auto bicubic_3d(const Grid3D<DataType, AxisType> &grid,
 
               if (load_frame<DataType, AxisType>(
                       grid, xi, yi, zi, boundary_type, bounds_error, frame)) {
-                xi = is_angle ? frame.normalize_angle(xi) : xi;
+                xi = is_angle ? frame.normalize_angle(
+                                    x_axis.normalize_coordinate(xi))
+                              : xi;
                 auto z0 = interpolator.interpolate(xi, yi, frame.frame_2d(0));
                 auto z1 = interpolator.interpolate(xi, yi, frame.frame_2d(1));
                 _result(ix) = detail::math::linear<AxisType, double>(
@@ -188,7 +195,8 @@ auto bicubic_4d(const Grid4D<DataType, AxisType> &grid,
     auto except = std::exception_ptr(nullptr);
 
     // Access to the shared pointer outside the loop to avoid data races
-    const auto is_angle = grid.x()->is_angle();
+    const auto &x_axis = *grid.x();
+    const auto is_angle = x_axis.is_angle();
 
     detail::dispatch(
         [&](const size_t start, const size_t end) {
@@ -206,7 +214,9 @@ auto bicubic_4d(const Grid4D<DataType, AxisType> &grid,
               if (load_frame<DataType, AxisType>(grid, xi, yi, zi, ui,
                                                  boundary_type, bounds_error,
                                                  frame)) {
-                xi = is_angle ? frame.normalize_angle(xi) : xi;
+                xi = is_angle ? frame.normalize_angle(
+                                    x_axis.normalize_coordinate(xi))
+                              : xi;
                 auto z00 =
                     interpolator.interpolate(xi, yi, frame.frame_2d(0, 0));
                 auto z10 =
-- 
2.43.0


From 62c7c194e265a2e0ed44fabc88ace9edec8ccbd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:13 +0000
Subject: [PATCH 017/110] fix: threads raising errors wrote the same exception
 pointer concurrently

The assignment of std::exception_ptr is not atomic: two workers failing at the
same time could corrupt its reference count. The errors of the loess filters
were lost, and the number of threads was zero if the number of CPUs is unknown.
---
 .../core/include/pyinterp/bivariate.hpp       |  8 ++--
 .../core/include/pyinterp/detail/thread.hpp   | 31 +++++++++++-
 src/pyinterp/core/include/pyinterp/fill.hpp   | 37 +++++++-------
 .../include/pyinterp/geodetic/algorithm.hpp   | 16 +++----
 .../include/pyinterp/geodetic/coordinates.hpp | 24 ++++------
 .../core/include/pyinterp/quadrivariate.hpp   |  8 ++--
 src/pyinterp/core/include/pyinterp/rtree.hpp  | 48 +++++++------------
 .../core/include/pyinterp/trivariate.hpp      |  8 ++--
 src/pyinterp/core/module/bicubic.cpp          | 24 ++++------
 9 files changed, 98 insertions(+), 106 deletions(-)

diff --git a/src/pyinterp/core/include/pyinterp/bivariate.hpp b/src/pyinterp/core/include/pyinterp/bivariate.hpp
index 81390d5..d8d340f 100644
--- a/src/pyinterp/core/include/pyinterp/bivariate.hpp
+++ b/src/pyinterp/core/include/pyinterp/bivariate.hpp
@@ -128,8 +128,8 @@ auto bivariate(const Grid2D<Type> &grid, const pybind11::array_t<Coordinate> &x,
     pybind11::gil_scoped_release release;
 
     // Captures the detected exceptions in the calculation function
-    // (only the last exception captured is kept)
-    auto except = std::exception_ptr(nullptr);
+    // (only the first exception captured is kept)
+    auto except = detail::SharedException();
 
     // Access to the shared pointer outside the loop to avoid data races
     const auto &x_axis = *grid.x();
@@ -148,9 +148,7 @@ auto bivariate(const Grid2D<Type> &grid, const pybind11::array_t<Coordinate> &x,
         },
         size, num_threads);
 
-    if (except != nullptr) {
-      std::rethrow_exception(except);
-    }
+    except.rethrow();
   }
   return result;
 }
diff --git a/src/pyinterp/core/include/pyinterp/detail/thread.hpp b/src/pyinterp/core/include/pyinterp/detail/thread.hpp
index 2cd1dd3..8ee0a94 100644
--- a/src/pyinterp/core/include/pyinterp/detail/thread.hpp
+++ b/src/pyinterp/core/include/pyinterp/detail/thread.hpp
@@ -3,11 +3,40 @@
 // All rights reserved. Use of this source code is governed by a
 // BSD-style license that can be found in the LICENSE file.
 #pragma once
+#include <algorithm>
+#include <exception>
+#include <mutex>
 #include <thread>
+#include <utility>
 #include <vector>
 
 namespace pyinterp::detail {
 
+/// Exception caught by the threads sharing this object (only the first
+/// exception captured is kept).
+class SharedException {
+ public:
+  /// Stores the exception caught by a thread.
+  auto operator=(std::exception_ptr except) -> SharedException & {
+    auto lock = std::lock_guard<std::mutex>(mutex_);
+    if (except_ == nullptr) {
+      except_ = std::move(except);
+    }
+    return *this;
+  }
+
+  /// Throws again the stored exception, if any, once the threads are joined.
+  auto rethrow() const -> void {
+    if (except_ != nullptr) {
+      std::rethrow_exception(except_);
+    }
+  }
+
+ private:
+  std::mutex mutex_{};
+  std::exception_ptr except_{nullptr};
+};
+
 /// Automates the cutting of vectors to be processed in thread.
 ///
 /// @param worker Lambda function called in each thread launched
@@ -24,7 +53,7 @@ void dispatch(const Lambda &worker, size_t size, size_t num_threads) {
   }
 
   if (num_threads == 0) {
-    num_threads = std::thread::hardware_concurrency();
+    num_threads = std::max(std::thread::hardware_concurrency(), 1U);
   }
 
   // List of threads responsible for parallelizing the calculation
diff --git a/src/pyinterp/core/include/pyinterp/fill.hpp b/src/pyinterp/core/include/pyinterp/fill.hpp
index d7c1305..a69d7ae 100644
--- a/src/pyinterp/core/include/pyinterp/fill.hpp
+++ b/src/pyinterp/core/include/pyinterp/fill.hpp
@@ -38,8 +38,8 @@ template <typename Type>
 void set_zonal_average(pybind11::EigenDRef<Matrix<Type>> &grid,
                        Matrix<bool> &mask, const size_t num_threads) {
   // Captures the detected exceptions in the calculation function
-  // (only the last exception captured is kept)
-  auto except = std::exception_ptr(nullptr);
+  // (only the first exception captured is kept)
+  auto except = detail::SharedException();
 
   detail::dispatch(
       [&](size_t y_start, size_t y_end) {
@@ -74,9 +74,7 @@ void set_zonal_average(pybind11::EigenDRef<Matrix<Type>> &grid,
       },
       grid.cols(), num_threads);
 
-  if (except != nullptr) {
-    std::rethrow_exception(except);
-  }
+  except.rethrow();
 }
 
 ///  Replaces all undefined values (NaN) in a grid using the Gauss-Seidel
@@ -95,8 +93,8 @@ auto gauss_seidel(pybind11::EigenDRef<pyinterp::Matrix<Type>> &grid,
   auto y_size = grid.cols();
 
   // Captures the detected exceptions in the calculation function
-  // (only the last exception captured is kept)
-  auto except = std::exception_ptr(nullptr);
+  // (only the first exception captured is kept)
+  auto except = detail::SharedException();
 
   // Thread worker responsible for processing red or black cells.
   //
@@ -158,9 +156,7 @@ auto gauss_seidel(pybind11::EigenDRef<pyinterp::Matrix<Type>> &grid,
     auto calculate = [&](int red_black) -> Type {
       auto max_residual = Type(0);
       worker(0, y_size, red_black, &max_residual);
-      if (except != nullptr) {
-        std::rethrow_exception(except);
-      }
+      except.rethrow();
       return max_residual;
     };
     return std::max(calculate(0), calculate(1));
@@ -190,9 +186,7 @@ auto gauss_seidel(pybind11::EigenDRef<pyinterp::Matrix<Type>> &grid,
     for (auto &&item : threads) {
       item.join();
     }
-    if (except != nullptr) {
-      std::rethrow_exception(except);
-    }
+    except.rethrow();
     return *std::max_element(max_residuals.begin(), max_residuals.end());
   };
   return std::max(calculate(0), calculate(1));
@@ -307,7 +301,7 @@ auto gauss_seidel(pybind11::EigenDRef<Matrix<Type>> &grid,
 
   /// Calculation of the maximum number of threads if the user chooses.
   if (num_threads == 0) {
-    num_threads = std::thread::hardware_concurrency();
+    num_threads = std::max(std::thread::hardware_concurrency(), 1U);
   }
 
   /// Calculation of the position of the undefined values on the grid.
@@ -417,8 +411,8 @@ auto loess(const Grid2D<Type> &grid, const uint32_t nx, const uint32_t ny,
   auto _result = result.template mutable_unchecked<2>();
 
   // Captures the detected exceptions in the calculation function
-  // (only the last exception captured is kept)
-  auto except = std::exception_ptr(nullptr);
+  // (only the first exception captured is kept)
+  auto except = detail::SharedException();
 
   auto worker = [&](const size_t start, const size_t end) {
     try {
@@ -505,6 +499,7 @@ auto loess(const Grid2D<Type> &grid, const uint32_t nx, const uint32_t ny,
     pybind11::gil_scoped_release release;
     detail::dispatch(worker, grid.x()->size(), num_threads);
   }
+  except.rethrow();
   return result;
 }
 
@@ -573,8 +568,8 @@ auto loess(const Grid3D<Type, AxisType> &grid, const uint32_t nx,
   auto _result = result.template mutable_unchecked<3>();
 
   // Captures the detected exceptions in the calculation function
-  // (only the last exception captured is kept)
-  auto except = std::exception_ptr(nullptr);
+  // (only the first exception captured is kept)
+  auto except = detail::SharedException();
 
   auto worker = [&](const size_t start, const size_t end) {
     try {
@@ -616,6 +611,7 @@ auto loess(const Grid3D<Type, AxisType> &grid, const uint32_t nx,
     pybind11::gil_scoped_release release;
     detail::dispatch(worker, grid.z()->size(), num_threads);
   }
+  except.rethrow();
   return result;
 }
 
@@ -629,8 +625,8 @@ auto loess(const Grid4D<Type, AxisType> &grid, const uint32_t nx,
   auto _result = result.template mutable_unchecked<4>();
 
   // Captures the detected exceptions in the calculation function
-  // (only the last exception captured is kept)
-  auto except = std::exception_ptr(nullptr);
+  // (only the first exception captured is kept)
+  auto except = detail::SharedException();
 
   auto worker = [&](const size_t start, const size_t end) {
     try {
@@ -675,6 +671,7 @@ auto loess(const Grid4D<Type, AxisType> &grid, const uint32_t nx,
     pybind11::gil_scoped_release release;
     detail::dispatch(worker, grid.u()->size(), num_threads);
   }
+  except.rethrow();
   return result;
 }
 
diff --git a/src/pyinterp/core/include/pyinterp/geodetic/algorithm.hpp b/src/pyinterp/core/include/pyinterp/geodetic/algorithm.hpp
index efbc60b..5acd025 100644
--- a/src/pyinterp/core/include/pyinterp/geodetic/algorithm.hpp
+++ b/src/pyinterp/core/include/pyinterp/geodetic/algorithm.hpp
@@ -82,8 +82,8 @@ template <typename Geometry1, typename Geometry2>
     pybind11::gil_scoped_release release;
 
     // Captures the detected exceptions in the calculation function
-    // (only the last exception captured is kept)
-    auto except = std::exception_ptr(nullptr);
+    // (only the first exception captured is kept)
+    auto except = detail::SharedException();
 
     detail::dispatch(
         [&](size_t start, size_t end) {
@@ -99,9 +99,7 @@ template <typename Geometry1, typename Geometry2>
         },
         size, num_threads);
 
-    if (except != nullptr) {
-      std::rethrow_exception(except);
-    }
+    except.rethrow();
   }
   return result;
 }
@@ -157,8 +155,8 @@ template <typename Geometry, typename Strategy>
     pybind11::gil_scoped_release release;
 
     // Captures the detected exceptions in the calculation function
-    // (only the last exception captured is kept)
-    auto except = std::exception_ptr(nullptr);
+    // (only the first exception captured is kept)
+    auto except = detail::SharedException();
 
     detail::dispatch(
         [&](size_t start, size_t end) {
@@ -175,9 +173,7 @@ template <typename Geometry, typename Strategy>
         },
         size, num_threads);
 
-    if (except != nullptr) {
-      std::rethrow_exception(except);
-    }
+    except.rethrow();
   }
   return result;
 }
diff --git a/src/pyinterp/core/include/pyinterp/geodetic/coordinates.hpp b/src/pyinterp/core/include/pyinterp/geodetic/coordinates.hpp
index 4f7c368..b6209dd 100644
--- a/src/pyinterp/core/include/pyinterp/geodetic/coordinates.hpp
+++ b/src/pyinterp/core/include/pyinterp/geodetic/coordinates.hpp
@@ -49,8 +49,8 @@ class Coordinates : public detail::geodetic::Coordinates {
       pybind11::gil_scoped_release release;
 
       // Captures the detected exceptions in the calculation function
-      // (only the last exception captured is kept)
-      auto except = std::exception_ptr(nullptr);
+      // (only the first exception captured is kept)
+      auto except = detail::SharedException();
 
       detail::dispatch(
           [&](size_t start, size_t end) {
@@ -68,9 +68,7 @@ class Coordinates : public detail::geodetic::Coordinates {
           },
           size, num_threads);
 
-      if (except != nullptr) {
-        std::rethrow_exception(except);
-      }
+      except.rethrow();
     }
     return pybind11::make_tuple(lon, lat, alt);
   }
@@ -96,8 +94,8 @@ class Coordinates : public detail::geodetic::Coordinates {
       pybind11::gil_scoped_release release;
 
       // Captures the detected exceptions in the calculation function
-      // (only the last exception captured is kept)
-      auto except = std::exception_ptr(nullptr);
+      // (only the first exception captured is kept)
+      auto except = detail::SharedException();
 
       detail::dispatch(
           [&](size_t start, size_t end) {
@@ -116,9 +114,7 @@ class Coordinates : public detail::geodetic::Coordinates {
           },
           size, num_threads);
 
-      if (except != nullptr) {
-        std::rethrow_exception(except);
-      }
+      except.rethrow();
     }
     return pybind11::make_tuple(x, y, z);
   }
@@ -144,8 +140,8 @@ class Coordinates : public detail::geodetic::Coordinates {
       pybind11::gil_scoped_release release;
 
       // Captures the detected exceptions in the calculation function
-      // (only the last exception captured is kept)
-      auto except = std::exception_ptr(nullptr);
+      // (only the first exception captured is kept)
+      auto except = detail::SharedException();
 
       detail::dispatch(
           [&](size_t start, size_t end) {
@@ -164,9 +160,7 @@ class Coordinates : public detail::geodetic::Coordinates {
           },
           size, num_threads);
 
-      if (except != nullptr) {
-        std::rethrow_exception(except);
-      }
+      except.rethrow();
     }
     return pybind11::make_tuple(lon2, lat2, alt2);
   }
diff --git a/src/pyinterp/core/include/pyinterp/quadrivariate.hpp b/src/pyinterp/core/include/pyinterp/quadrivariate.hpp
index b066ba7..ad1d887 100644
--- a/src/pyinterp/core/include/pyinterp/quadrivariate.hpp
+++ b/src/pyinterp/core/include/pyinterp/quadrivariate.hpp
@@ -147,8 +147,8 @@ auto quadrivariate(const Grid4D<Type, AxisType> &grid,
     pybind11::gil_scoped_release release;
 
     // Captures the detected exceptions in the calculation function
-    // (only the last exception captured is kept)
-    auto except = std::exception_ptr(nullptr);
+    // (only the first exception captured is kept)
+    auto except = detail::SharedException();
 
     // Access to the shared pointer outside the loop to avoid data races
     const auto &x_axis = *grid.x();
@@ -171,9 +171,7 @@ auto quadrivariate(const Grid4D<Type, AxisType> &grid,
         },
         size, num_threads);
 
-    if (except != nullptr) {
-      std::rethrow_exception(except);
-    }
+    except.rethrow();
   }
   return result;
 }
diff --git a/src/pyinterp/core/include/pyinterp/rtree.hpp b/src/pyinterp/core/include/pyinterp/rtree.hpp
index c86cb38..07079f8 100644
--- a/src/pyinterp/core/include/pyinterp/rtree.hpp
+++ b/src/pyinterp/core/include/pyinterp/rtree.hpp
@@ -545,8 +545,8 @@ class RTree : public detail::geometry::RTree<Point, Type> {
       pybind11::gil_scoped_release release;
 
       // Captures the detected exceptions in the calculation function
-      // (only the last exception captured is kept)
-      auto except = std::exception_ptr(nullptr);
+      // (only the first exception captured is kept)
+      auto except = detail::SharedException();
 
       detail::dispatch(
           [&](size_t start, size_t end) {
@@ -580,9 +580,7 @@ class RTree : public detail::geometry::RTree<Point, Type> {
           },
           size, num_threads);
 
-      if (except != nullptr) {
-        std::rethrow_exception(except);
-      }
+      except.rethrow();
     }
     return pybind11::make_tuple(distance, value);
   }
@@ -611,8 +609,8 @@ class RTree : public detail::geometry::RTree<Point, Type> {
       pybind11::gil_scoped_release release;
 
       // Captures the detected exceptions in the calculation function
-      // (only the last exception captured is kept)
-      auto except = std::exception_ptr(nullptr);
+      // (only the first exception captured is kept)
+      auto except = detail::SharedException();
 
       detail::dispatch(
           [&](size_t start, size_t end) {
@@ -664,9 +662,7 @@ class RTree : public detail::geometry::RTree<Point, Type> {
           },
           size, num_threads);
 
-      if (except != nullptr) {
-        std::rethrow_exception(except);
-      }
+      except.rethrow();
     }
     return pybind11::make_tuple(points, value);
   }
@@ -693,8 +689,8 @@ class RTree : public detail::geometry::RTree<Point, Type> {
       pybind11::gil_scoped_release release;
 
       // Captures the detected exceptions in the calculation function
-      // (only the last exception captured is kept)
-      auto except = std::exception_ptr(nullptr);
+      // (only the first exception captured is kept)
+      auto except = detail::SharedException();
 
       detail::dispatch(
           [&](size_t start, size_t end) {
@@ -719,9 +715,7 @@ class RTree : public detail::geometry::RTree<Point, Type> {
           },
           size, num_threads);
 
-      if (except != nullptr) {
-        std::rethrow_exception(except);
-      }
+      except.rethrow();
     }
     return pybind11::make_tuple(data, neighbors);
   }
@@ -754,8 +748,8 @@ class RTree : public detail::geometry::RTree<Point, Type> {
       pybind11::gil_scoped_release release;
 
       // Captures the detected exceptions in the calculation function
-      // (only the last exception captured is kept)
-      auto except = std::exception_ptr(nullptr);
+      // (only the first exception captured is kept)
+      auto except = detail::SharedException();
 
       detail::dispatch(
           [&](size_t start, size_t end) {
@@ -778,9 +772,7 @@ class RTree : public detail::geometry::RTree<Point, Type> {
           },
           size, num_threads);
 
-      if (except != nullptr) {
-        std::rethrow_exception(except);
-      }
+      except.rethrow();
     }
     return pybind11::make_tuple(data, neighbors);
   }
@@ -812,8 +804,8 @@ class RTree : public detail::geometry::RTree<Point, Type> {
       pybind11::gil_scoped_release release;
 
       // Captures the detected exceptions in the calculation function
-      // (only the last exception captured is kept)
-      auto except = std::exception_ptr(nullptr);
+      // (only the first exception captured is kept)
+      auto except = detail::SharedException();
 
       detail::dispatch(
           [&](size_t start, size_t end) {
@@ -837,9 +829,7 @@ class RTree : public detail::geometry::RTree<Point, Type> {
           },
           size, num_threads);
 
-      if (except != nullptr) {
-        std::rethrow_exception(except);
-      }
+      except.rethrow();
     }
     return pybind11::make_tuple(data, neighbors);
   }
@@ -870,8 +860,8 @@ class RTree : public detail::geometry::RTree<Point, Type> {
       pybind11::gil_scoped_release release;
 
       // Captures the detected exceptions in the calculation function
-      // (only the last exception captured is kept)
-      auto except = std::exception_ptr(nullptr);
+      // (only the first exception captured is kept)
+      auto except = detail::SharedException();
 
       detail::dispatch(
           [&](size_t start, size_t end) {
@@ -895,9 +885,7 @@ class RTree : public detail::geometry::RTree<Point, Type> {
           },
           size, num_threads);
 
-      if (except != nullptr) {
-        std::rethrow_exception(except);
-      }
+      except.rethrow();
     }
     return pybind11::make_tuple(data, neighbors);
   }
diff --git a/src/pyinterp/core/include/pyinterp/trivariate.hpp b/src/pyinterp/core/include/pyinterp/trivariate.hpp
index 8342bfd..8549389 100644
--- a/src/pyinterp/core/include/pyinterp/trivariate.hpp
+++ b/src/pyinterp/core/include/pyinterp/trivariate.hpp
@@ -104,8 +104,8 @@ auto trivariate(const Grid3D<Type, AxisType> &grid,
     pybind11::gil_scoped_release release;
 
     // Captures the detected exceptions in the calculation function
-    // (only the last exception captured is kept)
-    auto except = std::exception_ptr(nullptr);
+    // (only the first exception captured is kept)
+    auto except = detail::SharedException();
 
     // Access to the shared pointer outside the loop to avoid data races
     const auto &x_axis = *grid.x();
@@ -126,9 +126,7 @@ auto trivariate(const Grid3D<Type, AxisType> &grid,
         },
         size, num_threads);
 
-    if (except != nullptr) {
-      std::rethrow_exception(except);
-    }
+    except.rethrow();
   }
   return result;
 }
diff --git a/src/pyinterp/core/module/bicubic.cpp b/src/pyinterp/core/module/bicubic.cpp
index d02e883..38a1535 100644
--- a/src/pyinterp/core/module/bicubic.cpp
+++ b/src/pyinterp/core/module/bicubic.cpp
@@ -57,8 +57,8 @@ auto bicubic(const Grid2D<DataType> &grid, const py::array_t<double> &x,
     py::gil_scoped_release release;
 
     // Captures the detected exceptions in the calculation function
-    // (only the last exception captured is kept)
-    auto except = std::exception_ptr(nullptr);
+    // (only the first exception captured is kept)
+    auto except = detail::SharedException();
 
     // Access to the shared pointer outside the loop to avoid data races
     const auto &x_axis = *grid.x();
@@ -91,9 +91,7 @@ auto bicubic(const Grid2D<DataType> &grid, const py::array_t<double> &x,
         },
         size, num_threads);
 
-    if (except != nullptr) {
-      std::rethrow_exception(except);
-    }
+    except.rethrow();
   }
   return result;
 }
@@ -121,8 +119,8 @@ auto bicubic_3d(const Grid3D<DataType, AxisType> &grid,
     py::gil_scoped_release release;
 
     // Captures the detected exceptions in the calculation function
-    // (only the last exception captured is kept)
-    auto except = std::exception_ptr(nullptr);
+    // (only the first exception captured is kept)
+    auto except = detail::SharedException();
 
     // Access to the shared pointer outside the loop to avoid data races
     const auto &x_axis = *grid.x();
@@ -159,9 +157,7 @@ auto bicubic_3d(const Grid3D<DataType, AxisType> &grid,
         },
         size, num_threads);
 
-    if (except != nullptr) {
-      std::rethrow_exception(except);
-    }
+    except.rethrow();
   }
   return result;
 }
@@ -191,8 +187,8 @@ auto bicubic_4d(const Grid4D<DataType, AxisType> &grid,
     py::gil_scoped_release release;
 
     // Captures the detected exceptions in the calculation function
-    // (only the last exception captured is kept)
-    auto except = std::exception_ptr(nullptr);
+    // (only the first exception captured is kept)
+    auto except = detail::SharedException();
 
     // Access to the shared pointer outside the loop to avoid data races
     const auto &x_axis = *grid.x();
@@ -241,9 +237,7 @@ auto bicubic_4d(const Grid4D<DataType, AxisType> &grid,
         },
         size, num_threads);
 
-    if (except != nullptr) {
-      std::rethrow_exception(except);
-    }
+    except.rethrow();
   }
   return result;
 }
-- 
2.43.0


From 31d02e5a9b20f228eb282d73a657aea80d2c15e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:58 +0000
Subject: [PATCH 018/110] fix: geohash.transform overflowed its buffer on codes
 shorter than the array items

---
 src/pyinterp/core/lib/geohash/string.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/pyinterp/core/lib/geohash/string.cpp b/src/pyinterp/core/lib/geohash/string.cpp
index eb86a5b..2e95b0b 100644
--- a/src/pyinterp/core/lib/geohash/string.cpp
+++ b/src/pyinterp/core/lib/geohash/string.cpp
@@ -404,9 +404,15 @@ static auto zoom_in(char *ptr, pybind11::ssize_t size, uint32_t from_precision,
   // Number of bits need to zoom in
   auto bits = to_precision * 5;
 
-  // Calculation of the number of items needed for the result.
-  auto size_in = size * (static_cast<size_t>(2)
-                         << (5 * (to_precision - from_precision) - 1));
+  // Calculation of the number of items needed for the result: a code may be
+  // shorter than the items of the array.
+  auto size_in = static_cast<size_t>(0);
+  for (auto ix = 0; ix < size; ++ix) {
+    const auto chars = std::get<1>(
+        base32.decode(ptr + static_cast<size_t>(ix) * from_precision,
+                      from_precision));
+    size_in += static_cast<size_t>(1) << (5 * (to_precision - chars));
+  }
 
   // Allocates the result table.
   auto result = allocate_array(size_in, to_precision);
-- 
2.43.0


From 9f5879776a17601e4e6742796f161a9874d95e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:22 +0000
Subject: [PATCH 019/110] fix: geohash arrays of one item were read with their
 stride as length of the codes

---
 src/pyinterp/core/lib/geohash/string.cpp | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/pyinterp/core/lib/geohash/string.cpp b/src/pyinterp/core/lib/geohash/string.cpp
index 2e95b0b..9b59168 100644
--- a/src/pyinterp/core/lib/geohash/string.cpp
+++ b/src/pyinterp/core/lib/geohash/string.cpp
@@ -32,7 +32,7 @@ auto Array::get_info(const pybind11::array &hash, const pybind11::ssize_t ndim)
       if (dtype.kind() != 'S') {
         throw std::invalid_argument("hash must be a string array");
       }
-      if (info.strides[0] > 12) {
+      if (info.itemsize > 12) {
         throw std::invalid_argument("hash length must be within [1, 12]");
       }
       break;
@@ -40,11 +40,10 @@ auto Array::get_info(const pybind11::array &hash, const pybind11::ssize_t ndim)
       if (info.ndim != 2) {
         throw std::invalid_argument("hash must be a two-dimensional array");
       }
-      if (info.strides[0] != hash.shape(1) * info.strides[1] ||
-          dtype.kind() != 'S') {
+      if (dtype.kind() != 'S') {
         throw std::invalid_argument("hash must be a string array");
       }
-      if (info.strides[1] > 12) {
+      if (info.itemsize > 12) {
         throw std::invalid_argument("hash length must be within [1, 12]");
       }
       break;
@@ -124,7 +123,7 @@ auto decode(const char *const hash, const size_t count, const bool round)
 auto decode(const pybind11::array &hash, const bool round)
     -> std::tuple<Eigen::VectorXd, Eigen::VectorXd> {
   auto info = Array::get_info(hash, 1);
-  auto count = info.strides[0];
+  auto count = info.itemsize;
   auto lon = Eigen::VectorXd(info.shape[0]);
   auto lat = Eigen::VectorXd(info.shape[0]);
   auto *ptr = static_cast<char *>(info.ptr);
@@ -162,7 +161,7 @@ auto neighbors(const char *const hash, const size_t count) -> pybind11::array {
 auto area(const pybind11::array &hash,
           const std::optional<geodetic::Spheroid> &wgs) -> Eigen::MatrixXd {
   auto info = Array::get_info(hash, 1);
-  auto count = info.strides[0];
+  auto count = info.itemsize;
   auto result = Eigen::VectorXd(info.shape[0]);
   auto *ptr = static_cast<char *>(info.ptr);
   auto spheroid =
@@ -353,7 +352,7 @@ auto where(const pybind11::array &hash) -> std::unordered_map<
   auto info = Array::get_info(hash, 2);
   auto rows = info.shape[0];
   auto cols = info.shape[1];
-  auto chars = info.strides[1];
+  auto chars = info.itemsize;
   auto *ptr = static_cast<char *>(info.ptr);
   std::string current_code;
   std::string neighboring_code;
@@ -467,7 +466,7 @@ auto transform(const pybind11::array &hash, uint32_t precision)
   // Decode the information in the provided table.
   auto info = Array::get_info(hash, 1);
   auto size = info.shape[0];
-  auto input_precision = static_cast<uint32_t>(info.strides[0]);
+  auto input_precision = static_cast<uint32_t>(info.itemsize);
   auto *ptr = static_cast<char *>(info.ptr);
 
   if (input_precision == precision) {
-- 
2.43.0


From b32ded105eb03393fc83869a61d20b000d12a2ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:00 +0000
Subject: [PATCH 020/110] fix: geohash precision 0 was accepted and shifted
 64-bit codes by 64 bits

---
 .../core/include/pyinterp/geohash.hpp         | 23 ++++++++++---------
 src/pyinterp/core/lib/geohash/int64.cpp       |  2 +-
 src/pyinterp/core/module/geohash/string.cpp   |  2 +-
 3 files changed, 14 insertions(+), 13 deletions(-)

diff --git a/src/pyinterp/core/include/pyinterp/geohash.hpp b/src/pyinterp/core/include/pyinterp/geohash.hpp
index 5a7f57f..e749364 100644
--- a/src/pyinterp/core/include/pyinterp/geohash.hpp
+++ b/src/pyinterp/core/include/pyinterp/geohash.hpp
@@ -53,10 +53,7 @@ class GeoHash {
   /// @param[in] latitude Latitude of the point.
   /// @param[in] precision Number of characters in the geohash.
   GeoHash(double longitude, double latitude, uint32_t precision)
-      : code_(precision, '\0') {
-    if (precision > 12) {
-      throw std::invalid_argument("GeoHash precision must be <= 12");
-    }
+      : code_(check_precision(precision), '\0') {
     string::encode(
         {detail::math::normalize_angle(longitude, -180.0, 360.0), latitude},
         code_.data(), precision);
@@ -69,10 +66,7 @@ class GeoHash {
   /// the accuracy defined by the GeoHash.
   /// @throw std::invalid_argument if the geohash is not valid.
   static auto from_string(const std::string &code, bool round) -> GeoHash {
-    auto precision = static_cast<uint32_t>(code.size());
-    if (precision > 12) {
-      throw std::invalid_argument("GeoHash precision must be <= 12");
-    }
+    auto precision = check_precision(code.size());
     if (!Base32().validate(code.data(), precision)) {
       throw std::invalid_argument("GeoHash is not valid");
     }
@@ -143,6 +137,7 @@ class GeoHash {
   [[nodiscard]] static auto grid_properties(const geodetic::Box &box,
                                             uint32_t precision)
       -> std::tuple<GeoHash, size_t, size_t> {
+    check_precision(precision);
     auto [code, lng_boxes, lat_boxes] =
         int64::grid_properties(box, precision * 5);
     return std::make_tuple(
@@ -154,9 +149,7 @@ class GeoHash {
   /// precision
   [[nodiscard]] static auto error_with_precision(const uint32_t precision)
       -> std::tuple<double, double> {
-    if (precision > 12) {
-      throw std::invalid_argument("GeoHash precision must be <= 12");
-    }
+    check_precision(precision);
     return int64::error_with_precision(precision * 5);
   }
 
@@ -169,6 +162,14 @@ class GeoHash {
  private:
   std::string code_{};
 
+  /// Checks the number of characters of a code.
+  static auto check_precision(const size_t precision) -> uint32_t {
+    if (precision < 1 || precision > 12) {
+      throw std::invalid_argument("GeoHash precision must be within [1, 12]");
+    }
+    return static_cast<uint32_t>(precision);
+  }
+
   /// Default constructor.
   explicit GeoHash(const size_t precision) : code_(precision, '\0') {}
 
diff --git a/src/pyinterp/core/lib/geohash/int64.cpp b/src/pyinterp/core/lib/geohash/int64.cpp
index 749c8a9..96e6f4f 100644
--- a/src/pyinterp/core/lib/geohash/int64.cpp
+++ b/src/pyinterp/core/lib/geohash/int64.cpp
@@ -255,7 +255,7 @@ auto encode(const geodetic::Point &point, const uint32_t precision)
 // ---------------------------------------------------------------------------
 auto bounding_box(const uint64_t hash, const uint32_t precision)
     -> geodetic::Box {
-  auto full_hash = hash << (64U - precision);
+  auto full_hash = precision == 0 ? 0 : hash << (64U - precision);
   auto lat_lng_int = deinterleaver(full_hash);
   auto lat = codec::decode_range(std::get<0>(lat_lng_int), 90);
   auto lon = codec::decode_range(std::get<1>(lat_lng_int), 180);
diff --git a/src/pyinterp/core/module/geohash/string.cpp b/src/pyinterp/core/module/geohash/string.cpp
index 4c42418..c979b6c 100644
--- a/src/pyinterp/core/module/geohash/string.cpp
+++ b/src/pyinterp/core/module/geohash/string.cpp
@@ -19,7 +19,7 @@ namespace geodetic = pyinterp::geodetic;
 
 // Checking the value defining the precision of a geohash.
 constexpr static auto check_range(uint32_t precision) -> void {
-  if (precision > 12) {
+  if (precision < 1 || precision > 12) {
     throw std::invalid_argument("precision must be within [1, 12]");
   }
 }
-- 
2.43.0


From fdd30500fc4c3e36487e9648ec84be29f9304c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:16 +0000
Subject: [PATCH 021/110] fix: geohash of latitudes just below 90 degrees was
 the one of the South Pole

---
 src/pyinterp/core/lib/geohash/int64.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/pyinterp/core/lib/geohash/int64.cpp b/src/pyinterp/core/lib/geohash/int64.cpp
index 96e6f4f..f17b187 100644
--- a/src/pyinterp/core/lib/geohash/int64.cpp
+++ b/src/pyinterp/core/lib/geohash/int64.cpp
@@ -77,6 +77,9 @@ constexpr auto encode_range(const double x, const double r) -> uint32_t {
     return std::numeric_limits<uint32_t>::max();
   }
   auto p = (x + r) / (2 * r);
+  if (p >= 1) {
+    return std::numeric_limits<uint32_t>::max();
+  }
   return static_cast<uint32_t>(p * exp232);
 }
 
@@ -158,9 +161,10 @@ inline auto pextq(const uint64_t x, const uint64_t mask) -> uint64_t {
 // Encodes the point (lat, lon) to a 64-bit integer geohash using the Bit
 // Manipulation Instruction Set 2.
 static auto encode_bim2(const double lat, const double lon) -> uint64_t {
-  auto y = pdepq(
-      lat == 90.0 ? 0X3FFFFFFFFFF : shrq(1.5 + (lat * 0.005555555555555556)),
-      0x5555555555555555);
+  // The sum is rounded to 2, beyond the last cell, just below 90 degrees.
+  const auto lat_q = 1.5 + (lat * 0.005555555555555556);
+  auto y = pdepq(lat_q == 2.0 ? 0X3FFFFFFFFFF : shrq(lat_q),
+                 0x5555555555555555);
   auto x = pdepq(
       lon == 180.0 ? 0X3FFFFFFFFFF : shrq(1.5 + (lon * 0.002777777777777778)),
       0x5555555555555555);
-- 
2.43.0


From 5366efaef81911626d35fb2e9b8caeb576a76263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:59 +0000
Subject: [PATCH 022/110] fix: geohash cells of 64 bits next to 180 or 90
 degrees were decoded beyond the globe

---
 src/pyinterp/core/lib/geohash/int64.cpp | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/pyinterp/core/lib/geohash/int64.cpp b/src/pyinterp/core/lib/geohash/int64.cpp
index f17b187..be8d1c3 100644
--- a/src/pyinterp/core/lib/geohash/int64.cpp
+++ b/src/pyinterp/core/lib/geohash/int64.cpp
@@ -85,9 +85,6 @@ constexpr auto encode_range(const double x, const double r) -> uint32_t {
 
 // Decode the 32-bit range encoding X back to a value in the range -r to +r.
 constexpr auto decode_range(const uint32_t x, const double r) -> double {
-  if (x == std::numeric_limits<uint32_t>::max()) {
-    return r;
-  }
   auto p = static_cast<double>(x) * inv_exp232;
   return 2 * r * p - r;
 }
-- 
2.43.0


From 9d826ea166b9650582f6972b5af301cbda756bd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:21 +0000
Subject: [PATCH 023/110] fix: rounded centre of a geohash could be out of its
 cell

---
 src/pyinterp/core/include/pyinterp/geodetic/box.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/pyinterp/core/include/pyinterp/geodetic/box.hpp b/src/pyinterp/core/include/pyinterp/geodetic/box.hpp
index 5e4d1fb..8d6e41b 100644
--- a/src/pyinterp/core/include/pyinterp/geodetic/box.hpp
+++ b/src/pyinterp/core/include/pyinterp/geodetic/box.hpp
@@ -6,6 +6,7 @@
 #include <pybind11/numpy.h>
 
 #include <Eigen/Core>
+#include <algorithm>
 #include <list>
 #include <set>
 #include <string>
@@ -81,8 +82,11 @@ class Box : public boost::geometry::model::box<Point> {
     const auto xy = delta(true);
     const auto x = std::get<0>(xy);
     const auto y = std::get<1>(xy);
-    return {std::ceil(this->min_corner().lon() / x) * x,
-            std::ceil(this->min_corner().lat() / y) * y};
+    // The products are rounded, maybe out of the box.
+    return {std::max(std::ceil(this->min_corner().lon() / x) * x,
+                     this->min_corner().lon()),
+            std::max(std::ceil(this->min_corner().lat() / y) * y,
+                     this->min_corner().lat())};
   }
 
   /// @brief Test if the given point is inside or on border of this instance
-- 
2.43.0


From cbdc1961f29c5c635d7d5412373df0e8981da0d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:29 +0000
Subject: [PATCH 024/110] fix: geohash grids missed the cells of the maximum
 corner of the box

---
 src/pyinterp/core/lib/geohash/int64.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/pyinterp/core/lib/geohash/int64.cpp b/src/pyinterp/core/lib/geohash/int64.cpp
index be8d1c3..ccfade1 100644
--- a/src/pyinterp/core/lib/geohash/int64.cpp
+++ b/src/pyinterp/core/lib/geohash/int64.cpp
@@ -4,6 +4,7 @@
 // BSD-style license that can be found in the LICENSE file.
 #include "pyinterp/geohash/int64.hpp"
 
+#include <algorithm>
 #include <array>
 #include <iostream>
 
@@ -311,8 +312,10 @@ auto grid_properties(const geodetic::Box &box, const uint32_t precision)
     return std::make_tuple(hash_sw, 1, 1);
   }
 
-  auto lon_offset = box.max_corner().lon() == 180 ? 1 : 0;
-  auto lat_offset = box.max_corner().lat() == 90 ? 1 : 0;
+  // The cells of the maximum corner are part of the grid unless the box only
+  // touches their lower edge.
+  auto lon_offset = box.max_corner().lon() > box_ne.min_corner().lon() ? 1 : 0;
+  auto lat_offset = box.max_corner().lat() > box_ne.min_corner().lat() ? 1 : 0;
 
   auto lng_lat_err = error_with_precision(precision);
   auto lon_step = static_cast<size_t>(
@@ -322,7 +325,9 @@ auto grid_properties(const geodetic::Box &box, const uint32_t precision)
       std::round((box_ne.min_corner().lat() - box_sw.min_corner().lat()) /
                  (std::get<1>(lng_lat_err))));
 
-  return std::make_tuple(hash_sw, lon_step + lon_offset, lat_step + lat_offset);
+  return std::make_tuple(hash_sw,
+                         std::max<size_t>(lon_step + lon_offset, 1),
+                         std::max<size_t>(lat_step + lat_offset, 1));
 }
 
 // ---------------------------------------------------------------------------
-- 
2.43.0


From e39db1c75e1e77682bbcaf0a27eaca28677a3b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:54 +0000
Subject: [PATCH 025/110] fix: geohash.where ignored the last of two identical
 adjacent codes

---
 src/pyinterp/core/lib/geohash/string.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pyinterp/core/lib/geohash/string.cpp b/src/pyinterp/core/lib/geohash/string.cpp
index 9b59168..0e3443b 100644
--- a/src/pyinterp/core/lib/geohash/string.cpp
+++ b/src/pyinterp/core/lib/geohash/string.cpp
@@ -382,12 +382,12 @@ auto where(const pybind11::array &hash) -> std::unordered_map<
             neighboring_code = std::string(ptr + (i * cols + j) * chars, chars);
             if (current_code == neighboring_code) {
               auto &first = std::get<0>(it->second);
-              std::get<0>(first) = std::min(std::get<0>(first), i);
-              std::get<1>(first) = std::max(std::get<1>(first), i);
+              std::get<0>(first) = std::min({std::get<0>(first), i, ix});
+              std::get<1>(first) = std::max({std::get<1>(first), i, ix});
 
               auto &second = std::get<1>(it->second);
-              std::get<0>(second) = std::min(std::get<0>(second), j);
-              std::get<1>(second) = std::max(std::get<1>(second), j);
+              std::get<0>(second) = std::min({std::get<0>(second), j, jx});
+              std::get<1>(second) = std::max({std::get<1>(second), j, jx});
             }
           }
         }
-- 
2.43.0


From 9872eddc3e67d4f4e82283325cf20fae16c91223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:34 +0000
Subject: [PATCH 026/110] fix: normalize_longitudes returned its input
 unchanged if it was not contiguous

---
 src/pyinterp/geodetic/__init__.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/pyinterp/geodetic/__init__.py b/src/pyinterp/geodetic/__init__.py
index f972c8e..3591787 100644
--- a/src/pyinterp/geodetic/__init__.py
+++ b/src/pyinterp/geodetic/__init__.py
@@ -153,11 +153,10 @@ def normalize_longitudes(lon: numpy.ndarray,
     Returns:
         Longitudes normalized to the range ``[min_lon, min_lon + 360)``.
     """
-    if lon.flags.writeable:
-        geodetic.normalize_longitudes(lon, min_lon)
-        return lon
-    return geodetic.normalize_longitudes(  # type: ignore[return-value]
-        lon, min_lon)
+    # The array is modified in place, and nothing is returned, only if its
+    # layout allows it.
+    result = geodetic.normalize_longitudes(lon, min_lon)
+    return lon if result is None else result
 
 
 class RTree(geodetic.RTree):
-- 
2.43.0


From e594fbefc1a3c00e6da35303fc479105ccf35f5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:03 +0000
Subject: [PATCH 027/110] fix: authalic radius of a sphere was NaN

---
 .../core/include/pyinterp/detail/geodetic/spheroid.hpp         | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pyinterp/core/include/pyinterp/detail/geodetic/spheroid.hpp b/src/pyinterp/core/include/pyinterp/detail/geodetic/spheroid.hpp
index a55c415..b2d93b3 100644
--- a/src/pyinterp/core/include/pyinterp/detail/geodetic/spheroid.hpp
+++ b/src/pyinterp/core/include/pyinterp/detail/geodetic/spheroid.hpp
@@ -140,6 +140,9 @@ class Spheroid {
   ///
   /// @return \f$R_2=\sqrt{\frac{a^2+\frac{ab^2}{E}ln(\frac{a + E}{b})}{2}}\f$
   [[nodiscard]] inline auto authalic_radius() const noexcept -> double {
+    if (linear_eccentricity() == 0) {
+      return semi_major_axis_;
+    }
     return std::sqrt((math::sqr(semi_major_axis_) +
                       ((semi_major_axis_ * math::sqr(semi_minor_axis())) /
                        linear_eccentricity()) *
-- 
2.43.0


From 63c806c9e2643c66368a36857c104608d51a6392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:46 +0000
Subject: [PATCH 028/110] fix: keep a line string alive while it is iterated

The iterator did not hold a reference to its line string: iterating on a
temporary one, like the outer ring of a polygon, read freed memory.
---
 src/pyinterp/core/module/geodetic.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/pyinterp/core/module/geodetic.cpp b/src/pyinterp/core/module/geodetic.cpp
index d0b6e36..6d3c3b0 100644
--- a/src/pyinterp/core/module/geodetic.cpp
+++ b/src/pyinterp/core/module/geodetic.cpp
@@ -1131,11 +1131,12 @@ Args:
       .def("__repr__", &geodetic::LineString::to_string,
            "Called by the ``repr()`` built-in function to compute the string "
            "representation of a point.")
-      .def("__iter__",
-           [](const geodetic::LineString &self) {
-             return py::make_iterator(self.begin(), self.end(),
-                                      py::keep_alive<0, 1>());
-           })
+      .def(
+          "__iter__",
+          [](const geodetic::LineString &self) {
+            return py::make_iterator(self.begin(), self.end());
+          },
+          py::keep_alive<0, 1>())
       .def(
           "curvilinear_distance",
           [](const geodetic::LineString &self, const std::string &strategy,
-- 
2.43.0


From a0f41a6287a74896319f4be3f43dc0ee51c49e09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:03 +0000
Subject: [PATCH 029/110] fix: threads of the line strings, geodetic tree and
 geohash masks raced on errors

The threads wrote the exception to report in a variable they shared without
protection; the errors of the geohash masks terminated the process.
---
 .../core/lib/geodetic/line_string.cpp         |  6 ++--
 src/pyinterp/core/lib/geodetic/rtree.cpp      | 24 +++++----------
 src/pyinterp/core/lib/geohash/string.cpp      | 30 ++++++++++---------
 3 files changed, 26 insertions(+), 34 deletions(-)

diff --git a/src/pyinterp/core/lib/geodetic/line_string.cpp b/src/pyinterp/core/lib/geodetic/line_string.cpp
index 2340cc5..98bd750 100644
--- a/src/pyinterp/core/lib/geodetic/line_string.cpp
+++ b/src/pyinterp/core/lib/geodetic/line_string.cpp
@@ -224,7 +224,7 @@ auto LineString::closest_point(const Eigen::Ref<const Eigen::VectorXd>& lon,
     -> std::tuple<Eigen::VectorXd, Eigen::VectorXd> {
   auto result_lon = Eigen::VectorXd(lon.size());
   auto result_lat = Eigen::VectorXd(lat.size());
-  auto except = std::exception_ptr(nullptr);
+  auto except = detail::SharedException();
 
   if (wgs.has_value()) {
     auto worker = [&](size_t start, size_t end) {
@@ -254,9 +254,7 @@ auto LineString::closest_point(const Eigen::Ref<const Eigen::VectorXd>& lon,
     detail::dispatch(worker, lon.size(), num_threads);
   }
 
-  if (except != nullptr) {
-    std::rethrow_exception(except);
-  }
+  except.rethrow();
   return std::make_tuple(result_lon, result_lat);
 }
 
diff --git a/src/pyinterp/core/lib/geodetic/rtree.cpp b/src/pyinterp/core/lib/geodetic/rtree.cpp
index 0a6aedb..7f41d89 100644
--- a/src/pyinterp/core/lib/geodetic/rtree.cpp
+++ b/src/pyinterp/core/lib/geodetic/rtree.cpp
@@ -107,7 +107,7 @@ auto RTree::query(const Eigen::Ref<const Vector<double>> &lon,
 
     // Captures the detected exceptions in the calculation function
     // (only the last exception captured is kept)
-    auto except = std::exception_ptr(nullptr);
+    auto except = detail::SharedException();
 
     detail::dispatch(
         [&](size_t start, size_t end) {
@@ -138,9 +138,7 @@ auto RTree::query(const Eigen::Ref<const Vector<double>> &lon,
         },
         size, num_threads);
 
-    if (except != nullptr) {
-      std::rethrow_exception(except);
-    }
+    except.rethrow();
   }
   return pybind11::make_tuple(distance, value);
 }
@@ -167,7 +165,7 @@ auto RTree::inverse_distance_weighting(
 
     // Captures the detected exceptions in the calculation function
     // (only the last exception captured is kept)
-    auto except = std::exception_ptr(nullptr);
+    auto except = detail::SharedException();
 
     detail::dispatch(
         [&](size_t start, size_t end) {
@@ -186,9 +184,7 @@ auto RTree::inverse_distance_weighting(
         },
         size, num_threads);
 
-    if (except != nullptr) {
-      std::rethrow_exception(except);
-    }
+    except.rethrow();
   }
   return pybind11::make_tuple(data, neighbors);
 }
@@ -225,7 +221,7 @@ auto RTree::radial_basis_function(const Eigen::Ref<const Vector<double>> &lon,
 
     // Captures the detected exceptions in the calculation function
     // (only the last exception captured is kept)
-    auto except = std::exception_ptr(nullptr);
+    auto except = detail::SharedException();
 
     detail::dispatch(
         [&](size_t start, size_t end) {
@@ -244,9 +240,7 @@ auto RTree::radial_basis_function(const Eigen::Ref<const Vector<double>> &lon,
         },
         size, num_threads);
 
-    if (except != nullptr) {
-      std::rethrow_exception(except);
-    }
+    except.rethrow();
   }
   return pybind11::make_tuple(data, neighbors);
 }
@@ -276,7 +270,7 @@ auto RTree::window_function(const Eigen::Ref<const Vector<double>> &lon,
 
     // Captures the detected exceptions in the calculation function
     // (only the last exception captured is kept)
-    auto except = std::exception_ptr(nullptr);
+    auto except = detail::SharedException();
 
     detail::dispatch(
         [&](size_t start, size_t end) {
@@ -295,9 +289,7 @@ auto RTree::window_function(const Eigen::Ref<const Vector<double>> &lon,
         },
         size, num_threads);
 
-    if (except != nullptr) {
-      std::rethrow_exception(except);
-    }
+    except.rethrow();
   }
   return pybind11::make_tuple(data, neighbors);
 }
diff --git a/src/pyinterp/core/lib/geohash/string.cpp b/src/pyinterp/core/lib/geohash/string.cpp
index 0e3443b..1c66e92 100644
--- a/src/pyinterp/core/lib/geohash/string.cpp
+++ b/src/pyinterp/core/lib/geohash/string.cpp
@@ -232,28 +232,30 @@ auto mask_cell(const geodetic::Box &box, const Geometry &geometry,
 
   // Captures the detected exceptions in the calculation function
   // (only the last exception captured is kept)
-  auto except = std::exception_ptr(nullptr);
+  auto except = detail::SharedException();
 
   detail::dispatch(
       [&](size_t start, size_t end) {
-        for (auto lat = static_cast<int64_t>(start);
-             lat < static_cast<int64_t>(end); ++lat) {
-          auto point = geodetic::Point(
-              0, point_sw.lat() + static_cast<double>(lat) * lat_err);
-
-          for (size_t lon = 0; lon < lon_step; ++lon) {
-            point.lon(point_sw.lon() + static_cast<double>(lon) * lng_err);
-            result(lon, lat) = boost::geometry::intersects(
-                int64::bounding_box(int64::encode(point, bits), bits),
-                geometry);
+        try {
+          for (auto lat = static_cast<int64_t>(start);
+               lat < static_cast<int64_t>(end); ++lat) {
+            auto point = geodetic::Point(
+                0, point_sw.lat() + static_cast<double>(lat) * lat_err);
+  
+            for (size_t lon = 0; lon < lon_step; ++lon) {
+              point.lon(point_sw.lon() + static_cast<double>(lon) * lng_err);
+              result(lon, lat) = boost::geometry::intersects(
+                  int64::bounding_box(int64::encode(point, bits), bits),
+                  geometry);
+            }
           }
+        } catch (...) {
+          except = std::current_exception();
         }
       },
       lat_step, num_threads);
 
-  if (except != nullptr) {
-    std::rethrow_exception(except);
-  }
+  except.rethrow();
 
   return result;
 }
-- 
2.43.0


From 3e6f7998c007f55404b8a0e3882a45a9975ffcaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:34 +0000
Subject: [PATCH 030/110] fix: LineString.closest_point accepted coordinates of
 different sizes

It read, or wrote, past the end of the shortest array.
---
 src/pyinterp/core/lib/geodetic/line_string.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pyinterp/core/lib/geodetic/line_string.cpp b/src/pyinterp/core/lib/geodetic/line_string.cpp
index 98bd750..67f4576 100644
--- a/src/pyinterp/core/lib/geodetic/line_string.cpp
+++ b/src/pyinterp/core/lib/geodetic/line_string.cpp
@@ -222,6 +222,7 @@ auto LineString::closest_point(const Eigen::Ref<const Eigen::VectorXd>& lon,
                                const std::optional<Spheroid>& wgs,
                                const size_t num_threads) const
     -> std::tuple<Eigen::VectorXd, Eigen::VectorXd> {
+  detail::check_eigen_shape("lon", lon, "lat", lat);
   auto result_lon = Eigen::VectorXd(lon.size());
   auto result_lat = Eigen::VectorXd(lat.size());
   auto except = detail::SharedException();
-- 
2.43.0


From 778e64fbf3b48b57b2ae18919e4201cca7f808e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:53 +0000
Subject: [PATCH 031/110] fix: Crossover.nearest read past the end of an empty
 half-orbit

---
 src/pyinterp/core/lib/geodetic/crossover.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pyinterp/core/lib/geodetic/crossover.cpp b/src/pyinterp/core/lib/geodetic/crossover.cpp
index 66c5dde..1527fe5 100644
--- a/src/pyinterp/core/lib/geodetic/crossover.cpp
+++ b/src/pyinterp/core/lib/geodetic/crossover.cpp
@@ -94,6 +94,9 @@ auto Crossover::nearest(const Point& point, const double predicate,
                         const DistanceStrategy strategy,
                         const std::optional<Spheroid>& wgs) const
     -> std::optional<std::tuple<size_t, size_t>> {
+  if (half_orbit_1_.empty() || half_orbit_2_.empty()) {
+    return {};
+  }
   auto ix1 = NearestPoint(half_orbit_1_)(point);
   if (half_orbit_1_[ix1].distance(point, strategy, wgs) > predicate) {
     return {};
-- 
2.43.0


From 192ce27ffef0efba363249d2bb9b9a3cc15a1ef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:16 +0000
Subject: [PATCH 032/110] fix: nearest vertices of a crossover given with
 longitudes above 180 degrees

The spatial index expects longitudes between -180 and 180 degrees: given
others, it returned vertices that are not the nearest.
---
 src/pyinterp/core/lib/geodetic/crossover.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/pyinterp/core/lib/geodetic/crossover.cpp b/src/pyinterp/core/lib/geodetic/crossover.cpp
index 1527fe5..3f6e795 100644
--- a/src/pyinterp/core/lib/geodetic/crossover.cpp
+++ b/src/pyinterp/core/lib/geodetic/crossover.cpp
@@ -21,7 +21,7 @@ class NearestPoint {
     auto data = std::vector<std::pair<Point, size_t>>();
     data.reserve(line_string.size());
     for (const auto& item : line_string) {
-      data.emplace_back(item, ix++);
+      data.emplace_back(normalize(item), ix++);
     }
     rtree_ = RTree(data);
   }
@@ -34,7 +34,7 @@ class NearestPoint {
   ///         found.
   [[nodiscard]] inline auto operator()(const Point& point) const -> size_t {
     std::vector<std::pair<Point, size_t>> result;
-    rtree_.query(boost::geometry::index::nearest(point, 1),
+    rtree_.query(boost::geometry::index::nearest(normalize(point), 1),
                  std::back_inserter(result));
     return result[0].second;
   }
@@ -44,6 +44,12 @@ class NearestPoint {
       boost::geometry::index::rtree<std::pair<Point, size_t>,
                                     boost::geometry::index::quadratic<16>>;
   RTree rtree_;
+
+  /// The spatial index handles longitudes between -180 and 180 degrees.
+  static inline auto normalize(const Point& point) -> Point {
+    return {detail::math::normalize_angle(point.lon(), -180.0, 360.0),
+            point.lat()};
+  }
 };
 
 Crossover::Crossover(LineString half_orbit_1, LineString half_orbit_2)
-- 
2.43.0


From 6e659bb1e77746a946fc614414b116d513e2a446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:14 +0000
Subject: [PATCH 033/110] fix: nearest vertices of a crossover across the
 antimeridian

Crossover.nearest searched the vertices with a Boost R-tree, which returns
vertices that are not the nearest ones when the line crosses the
antimeridian. A linear search replaces it.
---
 src/pyinterp/core/lib/geodetic/crossover.cpp | 66 ++++++++------------
 1 file changed, 25 insertions(+), 41 deletions(-)

diff --git a/src/pyinterp/core/lib/geodetic/crossover.cpp b/src/pyinterp/core/lib/geodetic/crossover.cpp
index 3f6e795..03f4d8c 100644
--- a/src/pyinterp/core/lib/geodetic/crossover.cpp
+++ b/src/pyinterp/core/lib/geodetic/crossover.cpp
@@ -4,53 +4,37 @@
 // BSD-style license that can be found in the LICENSE file.
 #include "pyinterp/geodetic/crossover.hpp"
 
+#include <limits>
+
 #include "pyinterp/detail/broadcast.hpp"
 #include "pyinterp/detail/geometry/crossover.hpp"
 #include "pyinterp/detail/math.hpp"
 
 namespace pyinterp::geodetic {
 
-/// Search for the nearest index of a point in this linestring to a given point.
-class NearestPoint {
- public:
-  /// Default constructor
-  ///
-  /// @param line the line string to search.
-  explicit NearestPoint(const LineString& line_string) {
-    size_t ix = 0;
-    auto data = std::vector<std::pair<Point, size_t>>();
-    data.reserve(line_string.size());
-    for (const auto& item : line_string) {
-      data.emplace_back(normalize(item), ix++);
+/// Search for the index of the vertex of a line string that is the nearest to a
+/// given point.
+///
+/// @note The line string is used for a single search: a spatial index would
+/// cost more than it saves, and does not handle the lines that cross the
+/// antimeridian.
+///
+/// @param line_string the line string to search (not empty).
+/// @param point the point to search.
+/// @return the index of the nearest vertex.
+static auto nearest_point(const LineString& line_string, const Point& point)
+    -> size_t {
+  auto result = static_cast<size_t>(0);
+  auto min_distance = std::numeric_limits<double>::max();
+  for (auto ix = static_cast<size_t>(0); ix < line_string.size(); ++ix) {
+    auto distance = boost::geometry::distance(line_string[ix], point);
+    if (distance < min_distance) {
+      min_distance = distance;
+      result = ix;
     }
-    rtree_ = RTree(data);
-  }
-
-  /// Find the nearest index of a point in this linestring to a given
-  /// point.
-  ///
-  /// @param point the point to search.
-  /// @return the index of the nearest point or none if no intersection is
-  ///         found.
-  [[nodiscard]] inline auto operator()(const Point& point) const -> size_t {
-    std::vector<std::pair<Point, size_t>> result;
-    rtree_.query(boost::geometry::index::nearest(normalize(point), 1),
-                 std::back_inserter(result));
-    return result[0].second;
-  }
-
- private:
-  using RTree =
-      boost::geometry::index::rtree<std::pair<Point, size_t>,
-                                    boost::geometry::index::quadratic<16>>;
-  RTree rtree_;
-
-  /// The spatial index handles longitudes between -180 and 180 degrees.
-  static inline auto normalize(const Point& point) -> Point {
-    return {detail::math::normalize_angle(point.lon(), -180.0, 360.0),
-            point.lat()};
   }
-};
+  return result;
+}
 
 Crossover::Crossover(LineString half_orbit_1, LineString half_orbit_2)
     : half_orbit_1_(std::move(half_orbit_1)),
@@ -103,12 +87,12 @@ auto Crossover::nearest(const Point& point, const double predicate,
   if (half_orbit_1_.empty() || half_orbit_2_.empty()) {
     return {};
   }
-  auto ix1 = NearestPoint(half_orbit_1_)(point);
+  auto ix1 = nearest_point(half_orbit_1_, point);
   if (half_orbit_1_[ix1].distance(point, strategy, wgs) > predicate) {
     return {};
   }
 
-  auto ix2 = NearestPoint(half_orbit_2_)(point);
+  auto ix2 = nearest_point(half_orbit_2_, point);
   if (half_orbit_2_[ix2].distance(point, strategy, wgs) > predicate) {
     return {};
   }
-- 
2.43.0


From d23b8444f7af15038250f3cfa221500ba9606222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:52 +0000
Subject: [PATCH 034/110] fix: unpickled RTree were empty

RTree.__setstate__ called the constructor of an instance already built, which
does nothing, and the trees handling ECEF coordinates could not be unpickled
because they are built without spheroid.
---
 src/pyinterp/core/include/pyinterp/rtree.hpp | 6 ++++--
 src/pyinterp/rtree.py                        | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/pyinterp/core/include/pyinterp/rtree.hpp b/src/pyinterp/core/include/pyinterp/rtree.hpp
index 07079f8..61a3d9a 100644
--- a/src/pyinterp/core/include/pyinterp/rtree.hpp
+++ b/src/pyinterp/core/include/pyinterp/rtree.hpp
@@ -373,9 +373,11 @@ class RTree : public detail::geometry::RTree<Point, Type> {
     if (state.size() != 4) {
       throw std::runtime_error("invalid state");
     }
-    auto spheroid =
-        geodetic::Spheroid::setstate(state[0].cast<pybind11::tuple>());
     auto ecef = state[1].cast<bool>();
+    auto spheroid = std::optional<detail::geodetic::Spheroid>();
+    if (!ecef) {
+      spheroid = geodetic::Spheroid::setstate(state[0].cast<pybind11::tuple>());
+    }
     auto x = state[2].cast<pybind11::array_t<coordinate_t>>();
     auto u = state[3].cast<pybind11::array_t<Type>>();
 
diff --git a/src/pyinterp/rtree.py b/src/pyinterp/rtree.py
index e22143c..886f05f 100644
--- a/src/pyinterp/rtree.py
+++ b/src/pyinterp/rtree.py
@@ -488,5 +488,7 @@ class RTree:
             raise ValueError('invalid state')
         _class = RTree(None, state[0])
         self.dtype = _class.dtype
-        _class._instance.__setstate__(state[1])
-        self._instance = _class._instance
+        # The state can only be set on an instance that is not initialized.
+        core_class = type(_class._instance)
+        self._instance = core_class.__new__(core_class)
+        self._instance.__setstate__(state[1])
-- 
2.43.0


From afa01090674fde73813a56fdaba075b447dfd4e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:29 +0000
Subject: [PATCH 035/110] fix: upper bound of a RTree of negative coordinates

The maximum was initialized with the smallest positive number.
---
 src/pyinterp/core/include/pyinterp/rtree.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pyinterp/core/include/pyinterp/rtree.hpp b/src/pyinterp/core/include/pyinterp/rtree.hpp
index 61a3d9a..34dea8d 100644
--- a/src/pyinterp/core/include/pyinterp/rtree.hpp
+++ b/src/pyinterp/core/include/pyinterp/rtree.hpp
@@ -104,11 +104,11 @@ class RTree : public detail::geometry::RTree<Point, Type> {
     }
 
     auto x0 = std::numeric_limits<coordinate_t>::max();
-    auto x1 = std::numeric_limits<coordinate_t>::min();
+    auto x1 = std::numeric_limits<coordinate_t>::lowest();
     auto y0 = std::numeric_limits<coordinate_t>::max();
-    auto y1 = std::numeric_limits<coordinate_t>::min();
+    auto y1 = std::numeric_limits<coordinate_t>::lowest();
     auto z0 = std::numeric_limits<coordinate_t>::max();
-    auto z1 = std::numeric_limits<coordinate_t>::min();
+    auto z1 = std::numeric_limits<coordinate_t>::lowest();
 
     std::for_each(this->tree_->begin(), this->tree_->end(),
                   [&](const auto &item) {
-- 
2.43.0


From 9e92dd66d8eefb738f2b9124282468c5dd05d344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:13 +0000
Subject: [PATCH 036/110] fix: bounds of a RTree handling ECEF coordinates

They were converted to geodetic coordinates, whereas this tree never handles
such coordinates.
---
 src/pyinterp/core/include/pyinterp/rtree.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/pyinterp/core/include/pyinterp/rtree.hpp b/src/pyinterp/core/include/pyinterp/rtree.hpp
index 34dea8d..3609df6 100644
--- a/src/pyinterp/core/include/pyinterp/rtree.hpp
+++ b/src/pyinterp/core/include/pyinterp/rtree.hpp
@@ -112,7 +112,12 @@ class RTree : public detail::geometry::RTree<Point, Type> {
 
     std::for_each(this->tree_->begin(), this->tree_->end(),
                   [&](const auto &item) {
-                    auto lla = to_lla(item.first);
+                    auto lla = ecef_ ? detail::geometry::EquatorialPoint3D<
+                                           coordinate_t>(
+                                           boost::geometry::get<0>(item.first),
+                                           boost::geometry::get<1>(item.first),
+                                           boost::geometry::get<2>(item.first))
+                                     : to_lla(item.first);
                     x0 = std::min(x0, boost::geometry::get<0>(lla));
                     x1 = std::max(x1, boost::geometry::get<0>(lla));
                     y0 = std::min(y0, boost::geometry::get<1>(lla));
-- 
2.43.0


From 1d1f9f5a7c7f798284dce06d7b1b71f6dfae59e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:03 +0000
Subject: [PATCH 037/110] fix: universal kriging ignored the altitude of the
 points

The (n, 3) coordinates were converted as if their altitude was zero.
---
 src/pyinterp/core/include/pyinterp/rtree.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyinterp/core/include/pyinterp/rtree.hpp b/src/pyinterp/core/include/pyinterp/rtree.hpp
index 3609df6..f4a4feb 100644
--- a/src/pyinterp/core/include/pyinterp/rtree.hpp
+++ b/src/pyinterp/core/include/pyinterp/rtree.hpp
@@ -341,7 +341,7 @@ class RTree : public detail::geometry::RTree<Point, Type> {
       case dimension_t::value:
         return _universal_kriging<dimension_t::value>(
             ecef_ ? &RTree<Point, Type>::from_xyz
-                  : &RTree<Point, Type>::from_lon_lat,
+                  : &RTree<Point, Type>::from_lon_lat_alt,
             coordinates,
             radius.value_or(std::numeric_limits<coordinate_t>::max()), k, cov,
             sigma, lambda, within, num_threads);
-- 
2.43.0


From 501534de811e69bdd1dcc10c199fea485cd98c6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:05 +0000
Subject: [PATCH 038/110] fix: default argument of the Lanczos window of the
 R-trees

The documented default, one lobe, was replaced by zero, for which every weight
is zero.
---
 .../include/pyinterp/detail/math/window_functions.hpp    | 9 +++++++++
 src/pyinterp/core/include/pyinterp/rtree.hpp             | 6 ++++--
 src/pyinterp/core/lib/geodetic/rtree.cpp                 | 3 ++-
 3 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/pyinterp/core/include/pyinterp/detail/math/window_functions.hpp b/src/pyinterp/core/include/pyinterp/detail/math/window_functions.hpp
index 2b9ec22..fed04a2 100644
--- a/src/pyinterp/core/include/pyinterp/detail/math/window_functions.hpp
+++ b/src/pyinterp/core/include/pyinterp/detail/math/window_functions.hpp
@@ -140,6 +140,15 @@ constexpr auto boxcar(const T &d, const T &r, const T & /*sampling*/) -> T {
   return T(0);
 }
 
+/// Default value of the optional argument of the window function.
+///
+/// @param wf The window function.
+/// @return 1 (number of lobes) for the Lanczos window, 0 otherwise.
+template <typename T>
+constexpr auto default_argument(const Function wf) -> T {
+  return wf == kLanczos ? T(1) : T(0);
+}
+
 }  // namespace window
 
 /// In signal processing and statistics, a window function (also known as
diff --git a/src/pyinterp/core/include/pyinterp/rtree.hpp b/src/pyinterp/core/include/pyinterp/rtree.hpp
index f4a4feb..c5397c9 100644
--- a/src/pyinterp/core/include/pyinterp/rtree.hpp
+++ b/src/pyinterp/core/include/pyinterp/rtree.hpp
@@ -309,14 +309,16 @@ class RTree : public detail::geometry::RTree<Point, Type> {
                   : &RTree<Point, Type>::from_lon_lat,
             coordinates,
             radius.value_or(std::numeric_limits<coordinate_t>::max()), k, wf,
-            arg.value_or(0), within, num_threads);
+            arg.value_or(detail::math::window::default_argument<coordinate_t>(wf)),
+            within, num_threads);
       case dimension_t::value:
         return _window_function<dimension_t::value>(
             ecef_ ? &RTree<Point, Type>::from_xyz
                   : &RTree<Point, Type>::from_lon_lat_alt,
             coordinates,
             radius.value_or(std::numeric_limits<coordinate_t>::max()), k, wf,
-            arg.value_or(0), within, num_threads);
+            arg.value_or(detail::math::window::default_argument<coordinate_t>(wf)),
+            within, num_threads);
       default:
         throw std::invalid_argument(RTree<Point, Type>::invalid_shape());
     }
diff --git a/src/pyinterp/core/lib/geodetic/rtree.cpp b/src/pyinterp/core/lib/geodetic/rtree.cpp
index 7f41d89..350fc7a 100644
--- a/src/pyinterp/core/lib/geodetic/rtree.cpp
+++ b/src/pyinterp/core/lib/geodetic/rtree.cpp
@@ -252,7 +252,8 @@ auto RTree::window_function(const Eigen::Ref<const Vector<double>> &lon,
                             const std::optional<double> &arg, bool within,
                             const size_t num_threads) const -> pybind11::tuple {
   detail::check_container_size("lon", lon, "lat", lat);
-  auto _arg = arg.value_or(0);
+  auto _arg =
+      arg.value_or(detail::math::window::default_argument<double>(wf));
   auto size = lon.size();
 
   // Allocation of result vectors.
-- 
2.43.0


From b36d31c14fd74f382c7c9208da7b9f4482838ae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:55 +0000
Subject: [PATCH 039/110] fix: Cauchy and Whittle-Matern covariances were
 rejected

---
 src/pyinterp/interface.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pyinterp/interface.py b/src/pyinterp/interface.py
index 9ace82b..d003a5c 100644
--- a/src/pyinterp/interface.py
+++ b/src/pyinterp/interface.py
@@ -98,6 +98,7 @@ def _core_covariance_function(
     """Get the covariance function."""
     covariance = covariance or 'matern_32'
     if covariance not in [
+            'cauchy',
             'exponential',
             'gaussian',
             'linear',
@@ -109,6 +110,7 @@ def _core_covariance_function(
     ]:
         raise ValueError(f'Covariance function {covariance!r} is not defined')
     covariance = '_'.join(item.capitalize() for item in covariance.split('_'))
+    covariance = covariance.replace('Whittle_Matern', 'WhittleMatern')
     return getattr(core.CovarianceFunction, covariance)
 
 
-- 
2.43.0


From eccf8e6190c55e18808448ab4c7199872c6cf3db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:24 +0000
Subject: [PATCH 040/110] fix: unpickled geodetic RTree measured distances on a
 sphere

The state stored the equatorial radius twice instead of the polar one.
---
 src/pyinterp/core/lib/geodetic/rtree.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyinterp/core/lib/geodetic/rtree.cpp b/src/pyinterp/core/lib/geodetic/rtree.cpp
index 350fc7a..be3cd68 100644
--- a/src/pyinterp/core/lib/geodetic/rtree.cpp
+++ b/src/pyinterp/core/lib/geodetic/rtree.cpp
@@ -312,7 +312,7 @@ auto RTree::window_function(const Eigen::Ref<const Vector<double>> &lon,
                 });
   const auto &model = strategy_.model();
   auto a = model.template get_radius<0>();
-  auto b = model.template get_radius<1>();
+  auto b = model.template get_radius<2>();
   return pybind11::make_tuple(a, b, coordinates, data);
 }
 
-- 
2.43.0


From 8074516fb91b0d8e5a1812ce984c55e47a304875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:21 +0000
Subject: [PATCH 041/110] fix: reduce arrays whose unit dimensions have
 arbitrary strides

---
 src/pyinterp/core/include/pyinterp/detail/numpy.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/pyinterp/core/include/pyinterp/detail/numpy.hpp b/src/pyinterp/core/include/pyinterp/detail/numpy.hpp
index 3ac5482..1e6bcde 100644
--- a/src/pyinterp/core/include/pyinterp/detail/numpy.hpp
+++ b/src/pyinterp/core/include/pyinterp/detail/numpy.hpp
@@ -63,10 +63,17 @@ template <typename T>
   // Preserved strides of the processed tensor.
   auto adjusted_strides = Vector<pybind11::ssize_t>(ndim);
 
+  // The strides are calculated from the shape, because numpy does not define
+  // those of the dimensions of size 1 of a contiguous array.
+  pybind11::ssize_t stride = 1;
+  for (pybind11::ssize_t ix = ndim - 1; ix >= 0; --ix) {
+    strides[ix] = stride;
+    stride *= arr.shape(ix);
+  }
+
   // Calculation of the shape of the reduced tensor.
   for (pybind11::ssize_t ix = 0; ix < arr.ndim(); ++ix) {
     auto dim = arr.shape(ix);
-    strides[ix] = arr.strides(ix) / sizeof(T);
 
     // We keep this dimension?
     if (std::find(axes.begin(), axes.end(), ix) == axes.end()) {
-- 
2.43.0


From a75822fa2c828f1336036df0e0c6a978e2727997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:22 +0000
Subject: [PATCH 042/110] fix: do not read the bounds of an empty list of
 reduced axes

---
 src/pyinterp/core/include/pyinterp/detail/numpy.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pyinterp/core/include/pyinterp/detail/numpy.hpp b/src/pyinterp/core/include/pyinterp/detail/numpy.hpp
index 1e6bcde..2feb8f9 100644
--- a/src/pyinterp/core/include/pyinterp/detail/numpy.hpp
+++ b/src/pyinterp/core/include/pyinterp/detail/numpy.hpp
@@ -18,6 +18,10 @@ template <typename T>
 void check_axis_bounds(
     const pybind11::array_t<T, pybind11::array::c_style> &arr,
     const std::list<pybind11::ssize_t> &axis) {
+  // Without axis, nothing is reduced.
+  if (axis.empty()) {
+    return;
+  }
   auto ndim = arr.ndim();
   auto [min, max] = std::minmax_element(axis.begin(), axis.end());
   if (*min < 0) {
-- 
2.43.0


From 407f95814970e670281bc7bb48be3b12faf94469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:32 +0000
Subject: [PATCH 043/110] fix: merge of statistics with those of an empty set

---
 .../pyinterp/detail/math/descriptive_statistics.hpp      | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/pyinterp/core/include/pyinterp/detail/math/descriptive_statistics.hpp b/src/pyinterp/core/include/pyinterp/detail/math/descriptive_statistics.hpp
index e0ac125..a15d08b 100644
--- a/src/pyinterp/core/include/pyinterp/detail/math/descriptive_statistics.hpp
+++ b/src/pyinterp/core/include/pyinterp/detail/math/descriptive_statistics.hpp
@@ -152,6 +152,15 @@ class DescriptiveStatistics {
   /// Combines two accumulators.
   constexpr auto operator+=(const DescriptiveStatistics &rhs) noexcept
       -> DescriptiveStatistics & {
+    // An empty instance does not describe any sample.
+    if (rhs.acc_.count == 0) {
+      return *this;
+    }
+    if (acc_.count == 0) {
+      acc_ = rhs.acc_;
+      return *this;
+    }
+
     auto w = acc_.sum_of_weights + rhs.acc_.sum_of_weights;
 
     if (rhs.acc_.min < acc_.min) {
-- 
2.43.0


From ec79683ba14c994042d50c60647cbf14b3c95cb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:32 +0000
Subject: [PATCH 044/110] fix: statistics lost the samples pushed before the
 first positive weight

---
 .../detail/math/descriptive_statistics.hpp         | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/pyinterp/core/include/pyinterp/detail/math/descriptive_statistics.hpp b/src/pyinterp/core/include/pyinterp/detail/math/descriptive_statistics.hpp
index a15d08b..e9abc0e 100644
--- a/src/pyinterp/core/include/pyinterp/detail/math/descriptive_statistics.hpp
+++ b/src/pyinterp/core/include/pyinterp/detail/math/descriptive_statistics.hpp
@@ -51,9 +51,13 @@ class DescriptiveStatistics {
   constexpr auto operator()(const T &value) noexcept -> void {
     const auto r = acc_.sum_of_weights;
 
-    if (r == 0) {
+    if (acc_.count == 0) {
       *this = std::move(DescriptiveStatistics(value, 1));
     } else {
+      if (r == 0) {
+        acc_.mean = value;
+      }
+
       acc_.sum_of_weights += 1;
       acc_.count += 1;
       acc_.sum += value;
@@ -84,7 +88,7 @@ class DescriptiveStatistics {
 
   /// push a new value into the accumulator associated with a weight
   constexpr auto operator()(const T &value, const T &weight) noexcept -> void {
-    if (acc_.sum_of_weights == 0) {
+    if (acc_.count == 0) {
       *this = std::move(DescriptiveStatistics(value, weight));
     } else {
       this->operator+=(DescriptiveStatistics(value, weight));
@@ -171,8 +175,12 @@ class DescriptiveStatistics {
       acc_.max = rhs.acc_.max;
     }
 
+    if (acc_.sum_of_weights == 0) {
+      acc_.mean = rhs.acc_.mean;
+    }
+
     const auto delta = rhs.acc_.mean - acc_.mean;
-    const auto delta_w = delta / w;
+    const auto delta_w = w == 0 ? T(0) : delta / w;
     const auto delta2_w2 = delta_w * delta_w;
 
     const auto w2 = acc_.sum_of_weights * acc_.sum_of_weights;
-- 
2.43.0


From 027c86efe04f07b9fe6b80f92d8df1c6cf42a014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:54 +0000
Subject: [PATCH 045/110] fix: maximum of the histograms of negative values

---
 .../core/include/pyinterp/detail/math/streaming_histogram.hpp   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyinterp/core/include/pyinterp/detail/math/streaming_histogram.hpp b/src/pyinterp/core/include/pyinterp/detail/math/streaming_histogram.hpp
index 481e3ec..a48ee22 100644
--- a/src/pyinterp/core/include/pyinterp/detail/math/streaming_histogram.hpp
+++ b/src/pyinterp/core/include/pyinterp/detail/math/streaming_histogram.hpp
@@ -258,7 +258,7 @@ class StreamingHistogram {
   size_t bin_count_{100};
   uint64_t count_{0};
   T min_{std::numeric_limits<T>::max()};
-  T max_{std::numeric_limits<T>::min()};
+  T max_{std::numeric_limits<T>::lowest()};
   std::vector<Bin<T>> bins_{};
 
   /// Update the histogram with the provided value.
-- 
2.43.0


From 441bec891c10ad0d5729fb38c31d5b866afd7469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:54 +0000
Subject: [PATCH 046/110] fix: range of the histograms of weighted values

---
 .../include/pyinterp/detail/math/streaming_histogram.hpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/pyinterp/core/include/pyinterp/detail/math/streaming_histogram.hpp b/src/pyinterp/core/include/pyinterp/detail/math/streaming_histogram.hpp
index a48ee22..046e31d 100644
--- a/src/pyinterp/core/include/pyinterp/detail/math/streaming_histogram.hpp
+++ b/src/pyinterp/core/include/pyinterp/detail/math/streaming_histogram.hpp
@@ -149,12 +149,11 @@ class StreamingHistogram {
   /// Push a new value into the histogram.
   inline auto operator()(const T &value, const T &weight = T(1)) -> void {
     ++count_;
-    auto weighted_value = weight * value;
-    if (weighted_value < min_) {
-      min_ = weighted_value;
+    if (value < min_) {
+      min_ = value;
     }
-    if (weighted_value > max_) {
-      max_ = weighted_value;
+    if (value > max_) {
+      max_ = value;
     }
     update_bins(value, weight);
     trim();
-- 
2.43.0


From 28487f47863b3298ff1b79df327e4a5874fab8ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:54 +0000
Subject: [PATCH 047/110] fix: merge of a histogram with itself

---
 .../include/pyinterp/detail/math/streaming_histogram.hpp     | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pyinterp/core/include/pyinterp/detail/math/streaming_histogram.hpp b/src/pyinterp/core/include/pyinterp/detail/math/streaming_histogram.hpp
index 046e31d..2bec7b7 100644
--- a/src/pyinterp/core/include/pyinterp/detail/math/streaming_histogram.hpp
+++ b/src/pyinterp/core/include/pyinterp/detail/math/streaming_histogram.hpp
@@ -161,6 +161,11 @@ class StreamingHistogram {
 
   /// Merges the provided histogram into the current one.
   inline auto operator+=(const StreamingHistogram<T> &other) -> void {
+    if (this == &other) {
+      // The bins of this instance are modified during the merge.
+      *this += StreamingHistogram<T>(other);
+      return;
+    }
     count_ += other.count_;
     if (other.min_ < min_) {
       min_ = other.min_;
-- 
2.43.0


From 450c22136fd3a5e57595ddf7d263ad87167f0219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:54 +0000
Subject: [PATCH 048/110] fix: merge of histogram bins whose differences are
 not finite

---
 .../core/include/pyinterp/detail/math/streaming_histogram.hpp   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyinterp/core/include/pyinterp/detail/math/streaming_histogram.hpp b/src/pyinterp/core/include/pyinterp/detail/math/streaming_histogram.hpp
index 2bec7b7..5fed335 100644
--- a/src/pyinterp/core/include/pyinterp/detail/math/streaming_histogram.hpp
+++ b/src/pyinterp/core/include/pyinterp/detail/math/streaming_histogram.hpp
@@ -61,7 +61,7 @@ class BinDifferences {
 
  private:
   std::function<T(const Bin<T> &, const Bin<T> &)> calculate_;
-  size_t index_{std::numeric_limits<size_t>::max()};
+  size_t index_{0};
   T diff_{std::numeric_limits<T>::max()};
 
   /// Simple difference calculation.
-- 
2.43.0


From 0437199f224d94e7cf064951ed10aea30011cc39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:55 +0000
Subject: [PATCH 049/110] fix: histograms without any bin

---
 .../core/include/pyinterp/detail/math/streaming_histogram.hpp  | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pyinterp/core/include/pyinterp/detail/math/streaming_histogram.hpp b/src/pyinterp/core/include/pyinterp/detail/math/streaming_histogram.hpp
index 5fed335..386ac01 100644
--- a/src/pyinterp/core/include/pyinterp/detail/math/streaming_histogram.hpp
+++ b/src/pyinterp/core/include/pyinterp/detail/math/streaming_histogram.hpp
@@ -301,6 +301,9 @@ class StreamingHistogram {
 
   /// Compress the histogram if necessary.
   auto trim() -> void {
+    if (bin_count_ == 0) {
+      bins_.clear();
+    }
     while (bins_.size() > bin_count_) {
       // Find a point qi that minimizes qi+1 - qi
       auto ix = BinDifferences<T>(bins_, weighted_diff_).index();
-- 
2.43.0


From e4e640ccba093f31722e216fca4823dfa202fd27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:55 +0000
Subject: [PATCH 050/110] fix: quantile read past the last bin of the histogram

---
 .../core/include/pyinterp/detail/math/streaming_histogram.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyinterp/core/include/pyinterp/detail/math/streaming_histogram.hpp b/src/pyinterp/core/include/pyinterp/detail/math/streaming_histogram.hpp
index 386ac01..f3b74aa 100644
--- a/src/pyinterp/core/include/pyinterp/detail/math/streaming_histogram.hpp
+++ b/src/pyinterp/core/include/pyinterp/detail/math/streaming_histogram.hpp
@@ -220,8 +220,8 @@ class StreamingHistogram {
 
     auto ix = static_cast<size_t>(0);
     auto mb = qw - bins_.front().weight * 0.5;
-    while (mb - (bins_[ix].weight + bins_[ix + 1].weight) * 0.5 > 0 &&
-           ix < bins_.size() - 1) {
+    while (ix + 2 < bins_.size() &&
+           mb - (bins_[ix].weight + bins_[ix + 1].weight) * 0.5 > 0) {
       mb -= (bins_[ix].weight + bins_[ix + 1].weight) * 0.5;
       ix += 1;
     }
-- 
2.43.0


From 82f5339db1b5c1d4568fb37e6cac6365589d46b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:55 +0000
Subject: [PATCH 051/110] fix: merge of histogram bins without weight

---
 .../include/pyinterp/detail/math/streaming_histogram.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/pyinterp/core/include/pyinterp/detail/math/streaming_histogram.hpp b/src/pyinterp/core/include/pyinterp/detail/math/streaming_histogram.hpp
index f3b74aa..6577d70 100644
--- a/src/pyinterp/core/include/pyinterp/detail/math/streaming_histogram.hpp
+++ b/src/pyinterp/core/include/pyinterp/detail/math/streaming_histogram.hpp
@@ -313,9 +313,12 @@ class StreamingHistogram {
       const auto &item1 = bins_[++ix];
 
       // by the bin ((qi * ki + qi+1 * ki+1) / (ki + ki+1), ki + ki+1)
-      item0 = {(item0.value * item0.weight + item1.value * item1.weight) /
-                   (item0.weight + item1.weight),
-               item0.weight + item1.weight};
+      const auto weight = item0.weight + item1.weight;
+      item0 = {weight == 0 ? item0.value
+                           : (item0.value * item0.weight +
+                              item1.value * item1.weight) /
+                                 weight,
+               weight};
       bins_.erase(bins_.begin() + ix);
     }
   }
-- 
2.43.0


From b9405c1700a64bd8e4b67212f02dab613df77d80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:55 +0000
Subject: [PATCH 052/110] fix: the sum of two Histogram2D took the number of
 bins of the other one

---
 src/pyinterp/core/include/pyinterp/histogram2d.hpp | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/pyinterp/core/include/pyinterp/histogram2d.hpp b/src/pyinterp/core/include/pyinterp/histogram2d.hpp
index c53a5a4..66d1a49 100644
--- a/src/pyinterp/core/include/pyinterp/histogram2d.hpp
+++ b/src/pyinterp/core/include/pyinterp/histogram2d.hpp
@@ -208,12 +208,8 @@ class Histogram2D {
         auto &lhs = histogram_(ix, iy);
         auto &rhs = other.histogram_(ix, iy);
 
-        // Statistics are defined only in the other instance.
-        if (lhs.size() == 0 && rhs.size() != 0) {
-          lhs = rhs;
-          // If the statistics are defined in both instances they can be
-          // combined.
-        } else if (lhs.size() != 0 && rhs.size() != 0) {
+        // The number of bins of this instance is kept.
+        if (rhs.count() != 0) {
           lhs += rhs;
         }
       }
-- 
2.43.0


From 4639973545a106daea6d972c3012c24535b26215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:55 +0000
Subject: [PATCH 053/110] fix: Histogram2D.push_delayed ignored the number of
 bins

---
 src/pyinterp/histogram2d.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pyinterp/histogram2d.py b/src/pyinterp/histogram2d.py
index f03c957..b4d3e5c 100644
--- a/src/pyinterp/histogram2d.py
+++ b/src/pyinterp/histogram2d.py
@@ -77,6 +77,7 @@ class Histogram2D:
         else:
             raise ValueError(f'dtype {dtype} not handled by the object')
         self.dtype = dtype
+        self.bin_counts = bin_counts
 
     @property
     def x(self) -> core.Axis:
@@ -149,8 +150,8 @@ class Histogram2D:
         y = dask.array.core.asarray(y)
         z = dask.array.core.asarray(z)
 
-        def _process_block(x, y, z, x_axis, y_axis, dtype):
-            hist2d = Histogram2D(x_axis, y_axis, dtype=dtype)
+        def _process_block(x, y, z, x_axis, y_axis, bin_counts, dtype):
+            hist2d = Histogram2D(x_axis, y_axis, bin_counts, dtype=dtype)
             hist2d.push(x, y, z)
             return numpy.array([hist2d], dtype='object')
 
@@ -160,6 +161,7 @@ class Histogram2D:
                                           z.ravel(),
                                           self.x,
                                           self.y,
+                                          self.bin_counts,
                                           self.dtype,
                                           dtype='object').sum()
 
-- 
2.43.0


From 4db5065872b48279a512b7928a73c7d5c371fd82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:01 +0000
Subject: [PATCH 054/110] fix: the sum of two statistics modified the left
 operand

---
 src/pyinterp/binning.py                            | 4 ++++
 src/pyinterp/core/module/binning.cpp               | 7 +++++++
 src/pyinterp/histogram2d.py                        | 2 ++
 src/pyinterp/statistics/descriptive_descriptive.py | 3 +--
 4 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/pyinterp/binning.py b/src/pyinterp/binning.py
index cf976c9..ed2b846 100644
--- a/src/pyinterp/binning.py
+++ b/src/pyinterp/binning.py
@@ -95,6 +95,8 @@ class Binning2D:
         result = copy.copy(self)
         if type(result._instance) != type(other._instance):  # noqa: E721
             raise TypeError('Binning2D instance must be of the same type')
+        # The statistics of this instance must not be modified.
+        result._instance = copy.copy(self._instance)
         result._instance += other._instance  # type: ignore[operator]
         return result
 
@@ -286,6 +288,8 @@ class Binning1D:
         result = copy.copy(self)
         if type(result._instance) != type(other._instance):  # noqa: E721
             raise TypeError('Binning1D instance must be of the same type')
+        # The statistics of this instance must not be modified.
+        result._instance = copy.copy(self._instance)
         result._instance += other._instance  # type: ignore[operator]
         return result
 
diff --git a/src/pyinterp/core/module/binning.cpp b/src/pyinterp/core/module/binning.cpp
index 80cc4e9..4fafbee 100644
--- a/src/pyinterp/core/module/binning.cpp
+++ b/src/pyinterp/core/module/binning.cpp
@@ -194,6 +194,13 @@ Gets the range of the binning.
 Returns:
     Range of the binning.
 )__doc__")
+      .def(
+          "__copy__",
+          [](const pyinterp::Binning1D<Type> &self) {
+            return pyinterp::Binning1D<Type>(self);
+          },
+          "Implements the shallow copy operation.",
+          py::call_guard<py::gil_scoped_release>())
       .def(py::pickle(
           [](const pyinterp::Binning1D<Type> &self) { return self.getstate(); },
           [](const py::tuple &state) {
diff --git a/src/pyinterp/histogram2d.py b/src/pyinterp/histogram2d.py
index b4d3e5c..7f33ec7 100644
--- a/src/pyinterp/histogram2d.py
+++ b/src/pyinterp/histogram2d.py
@@ -107,6 +107,8 @@ class Histogram2D:
         if self.dtype != other.dtype:
             raise ValueError('dtype mismatch')
         result = copy.copy(self)
+        # The histograms of this instance must not be modified.
+        result._instance = copy.copy(self._instance)
         result._instance += other._instance  # type: ignore[operator]
         return result
 
diff --git a/src/pyinterp/statistics/descriptive_descriptive.py b/src/pyinterp/statistics/descriptive_descriptive.py
index 9c47d6d..bfdf3e1 100644
--- a/src/pyinterp/statistics/descriptive_descriptive.py
+++ b/src/pyinterp/statistics/descriptive_descriptive.py
@@ -16,7 +16,6 @@ if sys.version_info[:2] > (3, 10):
     from typing import Self
 else:
     Self = 'DescriptiveStatistics'
-import copy
 
 import dask.array.core
 import numpy
@@ -146,7 +145,7 @@ class DescriptiveStatistics:
             if type(self._instance) != type(other._instance):  # noqa: E721
                 raise TypeError(
                     'Descriptive statistics must have the same type')
-            result = copy.copy(self)
+            result = self.copy()
             result += other
             return result
         raise TypeError('unsupported operand type(s) for +='
-- 
2.43.0


From 56552666f4c30e615e6befd17ddc9dd518526152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:43 +0000
Subject: [PATCH 055/110] fix: statistics of arrays chunked along a preserved
 axis

---
 src/pyinterp/statistics/descriptive_descriptive.py | 8 ++++++++
 src/pyinterp/statistics/streaming_histogram.py     | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/src/pyinterp/statistics/descriptive_descriptive.py b/src/pyinterp/statistics/descriptive_descriptive.py
index bfdf3e1..6a512d4 100644
--- a/src/pyinterp/statistics/descriptive_descriptive.py
+++ b/src/pyinterp/statistics/descriptive_descriptive.py
@@ -36,6 +36,14 @@ def _delayed(
     if weights is not None and values.shape != weights.shape:
         raise ValueError('values and weights must have the same shape')
 
+    # Blocks are merged: they must hold all the cells of the result.
+    if axis is not None:
+        values = values.rechunk(
+            {ix: -1
+             for ix in range(values.ndim) if ix not in axis})
+    if weights is not None:
+        weights = weights.rechunk(values.chunks)
+
     def _process_block(attr, x, w, axis):
         instance = getattr(core, attr)(values=x, weights=w, axis=axis)
         return numpy.array([instance], dtype='object')
diff --git a/src/pyinterp/statistics/streaming_histogram.py b/src/pyinterp/statistics/streaming_histogram.py
index ef5f4be..c546d12 100644
--- a/src/pyinterp/statistics/streaming_histogram.py
+++ b/src/pyinterp/statistics/streaming_histogram.py
@@ -36,6 +36,14 @@ def _delayed(
     if weights is not None and values.shape != weights.shape:
         raise ValueError('values and weights must have the same shape')
 
+    # Blocks are merged: they must hold all the cells of the result.
+    if axis is not None:
+        values = values.rechunk(
+            {ix: -1
+             for ix in range(values.ndim) if ix not in axis})
+    if weights is not None:
+        weights = weights.rechunk(values.chunks)
+
     def _process_block(attr, x, w, axis, bin_count):
         instance = getattr(core, attr)(values=x,
                                        weights=w,
-- 
2.43.0


From 329abed5bf64b1b42344a434a1a4cd8e306d94ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:43 +0000
Subject: [PATCH 056/110] fix: unpickled Binning2D lost the geodetic system

---
 src/pyinterp/core/include/pyinterp/binning.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyinterp/core/include/pyinterp/binning.hpp b/src/pyinterp/core/include/pyinterp/binning.hpp
index adc2197..289af42 100644
--- a/src/pyinterp/core/include/pyinterp/binning.hpp
+++ b/src/pyinterp/core/include/pyinterp/binning.hpp
@@ -191,7 +191,7 @@ class Binning2D {
     auto wgs = std::optional<geodetic::Spheroid>();
     auto wgs_state = state[2].cast<pybind11::tuple>();
     if (!wgs_state.empty()) {
-      *wgs = geodetic::Spheroid::setstate(wgs_state);
+      wgs = geodetic::Spheroid::setstate(wgs_state);
     }
 
     // Unmarshalling computed statistics
-- 
2.43.0


From 4743b43a849faa8cc9a3d1ddaf899fd0105b7fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:43 +0000
Subject: [PATCH 057/110] fix: push_delayed ignored the data type and the range
 of the bins

---
 src/pyinterp/binning.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/pyinterp/binning.py b/src/pyinterp/binning.py
index ed2b846..9bfc7c6 100644
--- a/src/pyinterp/binning.py
+++ b/src/pyinterp/binning.py
@@ -181,8 +181,8 @@ class Binning2D:
         y = dask.array.core.asarray(y)
         z = dask.array.core.asarray(z)
 
-        def _process_block(x, y, z, x_axis, y_axis, wgs, simple):
-            binning = Binning2D(x_axis, y_axis, wgs)
+        def _process_block(x, y, z, x_axis, y_axis, wgs, simple, dtype):
+            binning = Binning2D(x_axis, y_axis, wgs, dtype)
             binning.push(x, y, z, simple)
             return numpy.array([binning], dtype='object')
 
@@ -194,6 +194,7 @@ class Binning2D:
                                           self.y,
                                           self.wgs,
                                           simple,
+                                          self.dtype,
                                           dtype='object').sum()
 
     def variable(self, statistics: str = 'mean') -> numpy.ndarray:
@@ -341,8 +342,8 @@ class Binning1D:
         if weights is not None:
             weights = dask.array.core.asarray(weights).ravel()
 
-        def _process_block(x, z, weights, x_axis):
-            binning = Binning1D(x_axis)
+        def _process_block(x, z, weights, x_axis, x_range, dtype):
+            binning = Binning1D(x_axis, x_range, dtype)
             binning.push(x, z, weights)
             return numpy.array([binning], dtype='object')
 
@@ -351,6 +352,8 @@ class Binning1D:
                                           z.ravel(),
                                           weights,
                                           self.x,
+                                          self.range(),
+                                          self.dtype,
                                           dtype='object').sum()
 
     def variable(self, statistics: str = 'mean') -> numpy.ndarray:
-- 
2.43.0


From 9f98addcf4e6275483e8bae1696c2ef656586e35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:02 +0000
Subject: [PATCH 058/110] fix: Binning1D.push read past the end of the shortest
 array

---
 src/pyinterp/binning.py                        | 2 ++
 src/pyinterp/core/include/pyinterp/binning.hpp | 6 ++++++
 2 files changed, 8 insertions(+)

diff --git a/src/pyinterp/binning.py b/src/pyinterp/binning.py
index 9bfc7c6..efd794c 100644
--- a/src/pyinterp/binning.py
+++ b/src/pyinterp/binning.py
@@ -311,6 +311,8 @@ class Binning1D:
         """
         x = numpy.asarray(x).ravel()
         z = numpy.asarray(z).ravel()
+        if weights is not None:
+            weights = numpy.asarray(weights).ravel()
         self._instance.push(x, z, weights)
 
     def push_delayed(
diff --git a/src/pyinterp/core/include/pyinterp/binning.hpp b/src/pyinterp/core/include/pyinterp/binning.hpp
index 289af42..c633d4c 100644
--- a/src/pyinterp/core/include/pyinterp/binning.hpp
+++ b/src/pyinterp/core/include/pyinterp/binning.hpp
@@ -387,6 +387,12 @@ class Binning1D : public Binning2D<T> {
   /// @param z values of the points.
   void push(const pybind11::array_t<T> &x, const pybind11::array_t<T> &z,
             const std::optional<pybind11::array_t<T>> &weights = std::nullopt) {
+    detail::check_array_ndim("x", 1, x, "z", 1, z);
+    detail::check_ndarray_shape("x", x, "z", z);
+    if (weights.has_value()) {
+      detail::check_array_ndim("weights", 1, *weights);
+      detail::check_ndarray_shape("x", x, "weights", *weights);
+    }
     auto _x = x.template unchecked<1>();
     auto _z = z.template unchecked<1>();
     auto _weights = weights.has_value()
-- 
2.43.0


From 2b345b454baf6396a773cb06ee69a222f37b2909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:02 +0000
Subject: [PATCH 059/110] fix: samples without coordinates were counted in the
 first bin

---
 src/pyinterp/core/include/pyinterp/binning.hpp     | 3 ++-
 src/pyinterp/core/include/pyinterp/histogram2d.hpp | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pyinterp/core/include/pyinterp/binning.hpp b/src/pyinterp/core/include/pyinterp/binning.hpp
index c633d4c..5adac45 100644
--- a/src/pyinterp/core/include/pyinterp/binning.hpp
+++ b/src/pyinterp/core/include/pyinterp/binning.hpp
@@ -294,7 +294,8 @@ class Binning2D {
       for (pybind11::ssize_t idx = 0; idx < x.size(); ++idx) {
         auto value = _z(idx);
 
-        if (!std::isnan(value)) {
+        if (!std::isnan(value) && !std::isnan(_x(idx)) &&
+            !std::isnan(_y(idx))) {
           auto ix = x_axis.find_index(_x(idx), true);
           auto iy = y_axis.find_index(_y(idx), true);
 
diff --git a/src/pyinterp/core/include/pyinterp/histogram2d.hpp b/src/pyinterp/core/include/pyinterp/histogram2d.hpp
index 66d1a49..3f0e7c5 100644
--- a/src/pyinterp/core/include/pyinterp/histogram2d.hpp
+++ b/src/pyinterp/core/include/pyinterp/histogram2d.hpp
@@ -92,7 +92,8 @@ class Histogram2D {
       for (pybind11::ssize_t idx = 0; idx < x.size(); ++idx) {
         auto value = _z(idx);
 
-        if (!std::isnan(value)) {
+        if (!std::isnan(value) && !std::isnan(_x(idx)) &&
+            !std::isnan(_y(idx))) {
           auto ix = x_axis.find_index(_x(idx), true);
           auto iy = y_axis.find_index(_y(idx), true);
 
-- 
2.43.0


From d7237163acdc2dfa2f49304a8f9cb10778ad0495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:02 +0000
Subject: [PATCH 060/110] fix: bin of the samples between the ends of a
 circular axis

---
 src/pyinterp/core/include/pyinterp/binning.hpp     | 6 +++---
 src/pyinterp/core/include/pyinterp/histogram2d.hpp | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/pyinterp/core/include/pyinterp/binning.hpp b/src/pyinterp/core/include/pyinterp/binning.hpp
index 5adac45..ee563ae 100644
--- a/src/pyinterp/core/include/pyinterp/binning.hpp
+++ b/src/pyinterp/core/include/pyinterp/binning.hpp
@@ -296,8 +296,8 @@ class Binning2D {
 
         if (!std::isnan(value) && !std::isnan(_x(idx)) &&
             !std::isnan(_y(idx))) {
-          auto ix = x_axis.find_index(_x(idx), true);
-          auto iy = y_axis.find_index(_y(idx), true);
+          auto ix = x_axis.find_nearest_index(_x(idx), true);
+          auto iy = y_axis.find_nearest_index(_y(idx), true);
 
           if (ix != -1 && iy != -1) {
             acc_(ix, iy)(value);
@@ -412,7 +412,7 @@ class Binning1D : public Binning2D<T> {
         if (!std::isnan(value)) {
           auto xi = _x(idx);
           if (xi >= this->x_min_ && xi <= this->x_max_) {
-            auto ix = x_axis.find_index(xi, true);
+            auto ix = x_axis.find_nearest_index(xi, true);
 
             if (ix != -1) {
               auto weight = weights.has_value() ? _weights(idx) : 1;
diff --git a/src/pyinterp/core/include/pyinterp/histogram2d.hpp b/src/pyinterp/core/include/pyinterp/histogram2d.hpp
index 3f0e7c5..5f5d363 100644
--- a/src/pyinterp/core/include/pyinterp/histogram2d.hpp
+++ b/src/pyinterp/core/include/pyinterp/histogram2d.hpp
@@ -94,8 +94,8 @@ class Histogram2D {
 
         if (!std::isnan(value) && !std::isnan(_x(idx)) &&
             !std::isnan(_y(idx))) {
-          auto ix = x_axis.find_index(_x(idx), true);
-          auto iy = y_axis.find_index(_y(idx), true);
+          auto ix = x_axis.find_nearest_index(_x(idx), true);
+          auto iy = y_axis.find_nearest_index(_y(idx), true);
 
           if (ix != -1 && iy != -1) {
             histogram_(ix, iy)(value);
-- 
2.43.0


From b6c95e46f9ec9e89ed534a1d53d11ac1e49c8d64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:02 +0000
Subject: [PATCH 061/110] fix: linear binning at the ends of circular axes

---
 src/pyinterp/core/include/pyinterp/binning.hpp | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/src/pyinterp/core/include/pyinterp/binning.hpp b/src/pyinterp/core/include/pyinterp/binning.hpp
index ee563ae..687c083 100644
--- a/src/pyinterp/core/include/pyinterp/binning.hpp
+++ b/src/pyinterp/core/include/pyinterp/binning.hpp
@@ -343,16 +343,11 @@ class Binning2D {
           auto [ix0, ix1] = *x_indexes;
           auto [iy0, iy1] = *y_indexes;
 
-          auto x0 = x_axis(ix0);
+          auto [xi, x0, x1] = x_axis.unwrap(_x(idx), ix0, ix1);
 
           auto weights = detail::math::binning_2d<Point, Strategy, double>(
-              Point<double>(x_axis.is_angle()
-                                ? detail::math::normalize_angle<double>(
-                                      _x(idx), x0, 360.0)
-                                : _x(idx),
-                            _y(idx)),
-              Point<double>(x0, y_axis(iy0)),
-              Point<double>(x_axis(ix1), y_axis(iy1)), strategy);
+              Point<double>(xi, _y(idx)), Point<double>(x0, y_axis(iy0)),
+              Point<double>(x1, y_axis(iy1)), strategy);
 
           update_acc(ix0, iy0, value, static_cast<T>(std::get<0>(weights)));
           update_acc(ix0, iy1, value, static_cast<T>(std::get<1>(weights)));
-- 
2.43.0


From 6d205d9a2367af6e90e0224b4143479eabb1b3e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:24 +0000
Subject: [PATCH 062/110] fix: LOESS division by zero on axes with a single
 point

---
 src/pyinterp/core/include/pyinterp/fill.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/pyinterp/core/include/pyinterp/fill.hpp b/src/pyinterp/core/include/pyinterp/fill.hpp
index a69d7ae..6fa9f60 100644
--- a/src/pyinterp/core/include/pyinterp/fill.hpp
+++ b/src/pyinterp/core/include/pyinterp/fill.hpp
@@ -345,8 +345,11 @@ inline auto frame_index(const int64_t index, const int64_t size,
   for (int64_t ix = 0; ix < static_cast<int64_t>(frame.size()); ++ix) {
     auto idx = index - center + ix;
 
-    // Normalizing longitude?
-    if (is_angle) {
+    if (size == 1) {
+      // Only one index can be used to frame the value.
+      idx = 0;
+    } else if (is_angle) {
+      // Normalizing longitude
       idx = detail::math::remainder(idx, size);
     } else {
       // Otherwise, the symmetrical indexes are used if the indexes are outside
-- 
2.43.0


From 62278823bf681fe1ff39c7c77057a64cc1fe3740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:24 +0000
Subject: [PATCH 063/110] fix: LOESS ignored a column of the window on
 longitudes

---
 src/pyinterp/core/include/pyinterp/fill.hpp | 40 ++++++---------------
 1 file changed, 11 insertions(+), 29 deletions(-)

diff --git a/src/pyinterp/core/include/pyinterp/fill.hpp b/src/pyinterp/core/include/pyinterp/fill.hpp
index 6fa9f60..9fb7e18 100644
--- a/src/pyinterp/core/include/pyinterp/fill.hpp
+++ b/src/pyinterp/core/include/pyinterp/fill.hpp
@@ -426,19 +426,13 @@ auto loess(const Grid2D<Type> &grid, const uint32_t nx, const uint32_t ny,
       auto y_frame = std::vector<int64_t>(ny * 2 + 1);
 
       for (size_t ix = start; ix < end; ++ix) {
-        auto x = x_axis(ix);
+        const auto x = x_axis(ix);
 
         // We retrieve the indexes framing the current value.
         frame_index(ix, x_axis.size(), x_axis.is_angle(), x_frame);
 
-        // Read the first value of the calculated window.
-        const auto x0 = x_axis(x_frame[0]);
-
-        // The current value is normalized to the first value in the
-        // window.
-        if (x_axis.is_angle()) {
-          x = detail::math::normalize_angle(x, x0, 360.0);
-        }
+        // The window is centered on the current value.
+        const auto x0 = x - 180.0;
 
         for (int64_t iy = 0; iy < y_axis.size(); ++iy) {
           auto z = grid.value(ix, iy);
@@ -461,7 +455,7 @@ auto loess(const Grid2D<Type> &grid, const uint32_t nx, const uint32_t ny,
             for (auto wx : x_frame) {
               auto xi = x_axis(wx);
 
-              // We normalize the window's coordinates to its first value.
+              // We normalize the window's coordinates around the current value.
               if (x_axis.is_angle()) {
                 xi = detail::math::normalize_angle(xi, x0, 360.0);
               }
@@ -532,7 +526,7 @@ auto loess_(const GridType &grid, const uint32_t nx, const uint32_t ny,
     for (auto wx : x_frame) {
       auto xi = x_axis(wx);
 
-      // We normalize the window's coordinates to its first value.
+      // We normalize the window's coordinates around the current value.
       if (x_axis.is_angle()) {
         xi = detail::math::normalize_angle(xi, x0, 360.0);
       }
@@ -584,19 +578,13 @@ auto loess(const Grid3D<Type, AxisType> &grid, const uint32_t nx,
 
       for (size_t iz = start; iz < end; ++iz) {
         for (int64_t ix = 0; ix < x_axis.size(); ++ix) {
-          auto x = x_axis(ix);
+          const auto x = x_axis(ix);
 
           // We retrieve the indexes framing the current value.
           frame_index(ix, x_axis.size(), x_axis.is_angle(), x_frame);
 
-          // Read the first value of the calculated window.
-          const auto x0 = x_axis(x_frame[0]);
-
-          // The current value is normalized to the first value in the
-          // window.
-          if (x_axis.is_angle()) {
-            x = detail::math::normalize_angle(x, x0, 360.0);
-          }
+          // The window is centered on the current value.
+          const auto x0 = x - 180.0;
 
           for (int64_t iy = 0; iy < y_axis.size(); ++iy) {
             _result(ix, iy, iz) = loess_<Type, Grid3D<Type, AxisType>>(
@@ -642,19 +630,13 @@ auto loess(const Grid4D<Type, AxisType> &grid, const uint32_t nx,
 
       for (size_t iu = start; iu < end; ++iu) {
         for (int64_t ix = 0; ix < x_axis.size(); ++ix) {
-          auto x = x_axis(ix);
+          const auto x = x_axis(ix);
 
           // We retrieve the indexes framing the current value.
           frame_index(ix, x_axis.size(), x_axis.is_angle(), x_frame);
 
-          // Read the first value of the calculated window.
-          const auto x0 = x_axis(x_frame[0]);
-
-          // The current value is normalized to the first value in the
-          // window.
-          if (x_axis.is_angle()) {
-            x = detail::math::normalize_angle(x, x0, 360.0);
-          }
+          // The window is centered on the current value.
+          const auto x0 = x - 180.0;
 
           for (int64_t iy = 0; iy < y_axis.size(); ++iy) {
             for (int64_t iz = 0; iz < z_axis.size(); ++iz) {
-- 
2.43.0


From 48d5a653479559d8a2de5ffbed1a11a664d213f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:24 +0000
Subject: [PATCH 064/110] fix: Gauss-Seidel relaxation out of bounds on grids
 with one row or column

---
 src/pyinterp/core/include/pyinterp/fill.hpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/pyinterp/core/include/pyinterp/fill.hpp b/src/pyinterp/core/include/pyinterp/fill.hpp
index 9fb7e18..444afcf 100644
--- a/src/pyinterp/core/include/pyinterp/fill.hpp
+++ b/src/pyinterp/core/include/pyinterp/fill.hpp
@@ -92,6 +92,13 @@ auto gauss_seidel(pybind11::EigenDRef<pyinterp::Matrix<Type>> &grid,
   auto x_size = grid.rows();
   auto y_size = grid.cols();
 
+  // Neighbors of the cells located on the edges of the grid (the cell itself if
+  // the dimension contains only one cell).
+  const auto next_x = std::min<int64_t>(1, x_size - 1);
+  const auto previous_x = std::max<int64_t>(0, x_size - 2);
+  const auto next_y = std::min<int64_t>(1, y_size - 1);
+  const auto previous_y = std::max<int64_t>(0, y_size - 2);
+
   // Captures the detected exceptions in the calculation function
   // (only the first exception captured is kept)
   auto except = detail::SharedException();
@@ -131,13 +138,13 @@ auto gauss_seidel(pybind11::EigenDRef<pyinterp::Matrix<Type>> &grid,
 
     try {
       for (auto ix = 0; ix < x_size; ++ix) {
-        auto ix0 = ix == 0 ? (is_circle ? x_size - 1 : 1) : ix - 1;
-        auto ix1 = ix == x_size - 1 ? (is_circle ? 0 : x_size - 2) : ix + 1;
+        auto ix0 = ix == 0 ? (is_circle ? x_size - 1 : next_x) : ix - 1;
+        auto ix1 = ix == x_size - 1 ? (is_circle ? 0 : previous_x) : ix + 1;
 
         for (auto iy = y_start; iy < y_end; ++iy) {
           if (mask(ix, iy) && ((ix + iy) % 2) == red_black) {
-            auto iy0 = iy == 0 ? 1 : iy - 1;
-            auto iy1 = iy == y_size - 1 ? y_size - 2 : iy + 1;
+            auto iy0 = iy == 0 ? next_y : iy - 1;
+            auto iy1 = iy == y_size - 1 ? previous_y : iy + 1;
 
             cell_fill(ix0, ix, ix1, iy0, iy, iy1);
           }
-- 
2.43.0


From 054de11c3a32a6cd3846d11d1dcddaacc8034667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:24 +0000
Subject: [PATCH 065/110] fix: matrix filling overwrote the only defined value
 of a row

---
 src/pyinterp/core/include/pyinterp/fill.hpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/pyinterp/core/include/pyinterp/fill.hpp b/src/pyinterp/core/include/pyinterp/fill.hpp
index 444afcf..60eeed3 100644
--- a/src/pyinterp/core/include/pyinterp/fill.hpp
+++ b/src/pyinterp/core/include/pyinterp/fill.hpp
@@ -241,7 +241,6 @@ void fill_line(EigenRefBlock<T> x, EigenRefBlock<bool> is_undefined) {
 
   // If there are no valid points, then we can't interpolate anything.
   if (last_valid == first_valid) {
-    is_undefined.setOnes();
     return;
   }
 
-- 
2.43.0


From f1460325957f2f6fc65d3b9484c4e0206e0dad72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:24 +0000
Subject: [PATCH 066/110] fix: matrix filling of single precision data

---
 src/pyinterp/fill.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pyinterp/fill.py b/src/pyinterp/fill.py
index 2c250dd..91658ca 100644
--- a/src/pyinterp/fill.py
+++ b/src/pyinterp/fill.py
@@ -164,7 +164,10 @@ def matrix(x: NDArray,
         x = numpy.copy(x)
     if dtype == numpy.float32:
         core.fill.matrix_float32(x, fill_value)
-    core.fill.matrix_float64(x, fill_value)
+    elif dtype == numpy.float64:
+        core.fill.matrix_float64(x, fill_value)
+    else:
+        raise ValueError(f'unsupported data type {dtype}')
     return x
 
 
-- 
2.43.0


From 9ca31ebf826423ade2d3a14c9e01be1bf51ccd6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:24 +0000
Subject: [PATCH 067/110] fix: fill value of the vectors of dates and durations

---
 src/pyinterp/fill.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/pyinterp/fill.py b/src/pyinterp/fill.py
index 91658ca..8e4597d 100644
--- a/src/pyinterp/fill.py
+++ b/src/pyinterp/fill.py
@@ -199,8 +199,12 @@ def vector(x: NDArray,
         core.fill.vector_int64(x, fill_value)
     elif numpy.issubdtype(dtype, numpy.datetime64) or numpy.issubdtype(
             dtype, numpy.timedelta64):
-        core.fill.vector_int64(x.view(numpy.int64),
-                               fill_value.view(numpy.int64))
+        # The default fill value is the missing date or duration.
+        if isinstance(fill_value, (float, numpy.floating)):
+            fill_value = 'NaT'
+        core.fill.vector_int64(
+            x.view(numpy.int64),
+            numpy.array(fill_value, dtype=dtype).view(numpy.int64))
     else:
         raise ValueError(f'unsupported data type {dtype}')
     return x
-- 
2.43.0


From f7b29369cd46447473bb03411a6053764533add2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:50 +0000
Subject: [PATCH 068/110] fix: slope of the lines filling the vectors of
 integers and dates

---
 src/pyinterp/core/include/pyinterp/fill.hpp | 31 +++++++++++++++------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/src/pyinterp/core/include/pyinterp/fill.hpp b/src/pyinterp/core/include/pyinterp/fill.hpp
index 60eeed3..fc0bb89 100644
--- a/src/pyinterp/core/include/pyinterp/fill.hpp
+++ b/src/pyinterp/core/include/pyinterp/fill.hpp
@@ -199,6 +199,24 @@ auto gauss_seidel(pybind11::EigenDRef<pyinterp::Matrix<Type>> &grid,
   return std::max(calculate(0), calculate(1));
 }
 
+/// Calculates the variation of a value after a number of steps on a line.
+///
+/// @tparam T The type of the values.
+/// @param delta The variation of the value over the whole segment.
+/// @param size The number of steps of the segment.
+/// @param steps The number of steps made.
+/// @return The variation of the value (rounded toward zero for integers)
+template <typename T>
+constexpr auto line_delta(const T delta, const Eigen::Index size,
+                          const Eigen::Index steps) -> T {
+  if constexpr (std::is_integral_v<T>) {
+    // The slope of the line is not an integer.
+    return (delta / size) * steps + (delta % size) * steps / size;
+  } else {
+    return (delta / size) * steps;
+  }
+}
+
 /// Fills in the gaps between defined values in a line with interpolated
 /// values.
 ///
@@ -209,7 +227,6 @@ template <typename T>
 void fill_line(EigenRefBlock<T> x, EigenRefBlock<bool> is_undefined) {
   T x0;
   T x1;
-  T dx;
   Eigen::Index di;
   Eigen::Index last_valid = -1;
   Eigen::Index first_valid = -1;
@@ -224,10 +241,8 @@ void fill_line(EigenRefBlock<T> x, EigenRefBlock<bool> is_undefined) {
         x0 = x[last_valid];
         x1 = x[ix];
         di = ix - last_valid;
-        dx = (x1 - x0) / di;
         for (Eigen::Index jx = last_valid + 1; jx < ix; ++jx) {
-          di = jx - last_valid;
-          x[jx] = dx * di + x0;
+          x[jx] = line_delta<T>(x1 - x0, di, jx - last_valid) + x0;
         }
       } else if (first_valid == -1) {
         // If this is the first valid point, then we can't interpolate the
@@ -247,22 +262,20 @@ void fill_line(EigenRefBlock<T> x, EigenRefBlock<bool> is_undefined) {
   // If the last valid point is not the last point, then we can't interpolate
   x0 = x[first_valid];
   x1 = x[last_valid];
-  dx = (x1 - x0) / (last_valid - first_valid);
+  di = last_valid - first_valid;
 
   // If there is a gap between the last valid point and the end of the line,
   // then interpolate the gap.
   if (last_valid < (size - 1)) {
     for (Eigen::Index jx = last_valid + 1; jx < size; ++jx) {
-      di = jx - last_valid;
-      x[jx] = dx * di + x1;
+      x[jx] = line_delta<T>(x1 - x0, di, jx - last_valid) + x1;
     }
   }
   // If there is a gap between the first valid point and the beginning of the
   // line, then interpolate the gap.
   if (first_valid > 0) {
     for (Eigen::Index jx = 0; jx < first_valid; ++jx) {
-      di = first_valid - jx;
-      x[jx] = x0 - dx * di;
+      x[jx] = x0 - line_delta<T>(x1 - x0, di, first_valid - jx);
     }
   }
   // Mark all points as defined.
-- 
2.43.0


From 2ca113b576f321b8e3417e936449be1921a15d45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:50 +0000
Subject: [PATCH 069/110] fix: largest integer as fill value of the vectors to
 fill

---
 src/pyinterp/core/include/pyinterp/fill.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pyinterp/core/include/pyinterp/fill.hpp b/src/pyinterp/core/include/pyinterp/fill.hpp
index fc0bb89..16c7809 100644
--- a/src/pyinterp/core/include/pyinterp/fill.hpp
+++ b/src/pyinterp/core/include/pyinterp/fill.hpp
@@ -716,7 +716,8 @@ void matrix(pybind11::EigenDRef<Matrix<T>> x, const T &fill_value) {
 template <typename T>
 auto vector(Eigen::Ref<Vector<T>> array, const T &fill_value) {
   Vector<bool> mask;
-  if (detail::math::Fill<T>::is(fill_value)) {
+  if (std::is_floating_point<T>::value &&
+      detail::math::Fill<T>::is(fill_value)) {
     mask = Eigen::isnan(array.array());
   } else {
     mask = array.array() == fill_value;
-- 
2.43.0


From 1c689099f08da1379cb0026e44f24792a05e325a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:37 +0000
Subject: [PATCH 070/110] fix: reading past the last period of a list

---
 src/pyinterp/core/include/pyinterp/period.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyinterp/core/include/pyinterp/period.hpp b/src/pyinterp/core/include/pyinterp/period.hpp
index 65e388f..6fbf101 100644
--- a/src/pyinterp/core/include/pyinterp/period.hpp
+++ b/src/pyinterp/core/include/pyinterp/period.hpp
@@ -326,7 +326,7 @@ class PeriodList {
 
       while (ix < dates.size()) {
         const auto date = dates(ix);
-        while (!it->contains(date) && !it->is_after(date) && it != end) {
+        while (it != end && !it->contains(date) && !it->is_after(date)) {
           ++it;
         }
         if (it == end) {
-- 
2.43.0


From 10d562b8aa56a9d7c60ce72cdcb996e5c5447a04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:37 +0000
Subject: [PATCH 071/110] fix: periods crossed by an empty vector of dates

---
 src/pyinterp/core/include/pyinterp/period.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pyinterp/core/include/pyinterp/period.hpp b/src/pyinterp/core/include/pyinterp/period.hpp
index 6fbf101..52871d3 100644
--- a/src/pyinterp/core/include/pyinterp/period.hpp
+++ b/src/pyinterp/core/include/pyinterp/period.hpp
@@ -255,6 +255,11 @@ class PeriodList {
     auto flags = Eigen::Matrix<bool, -1, 1>(dates.size());
     flags.setConstant(false);
 
+    // If there are no dates, the inspection is over.
+    if (dates.size() == 0) {
+      return flags;
+    }
+
     // Index of the traversed date.
     auto ix = int64_t(0);
 
-- 
2.43.0


From c6564bd4af11d1d4e76c223b30529e6134d863fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:37 +0000
Subject: [PATCH 072/110] fix: joining periods nested in the previous one

---
 src/pyinterp/core/include/pyinterp/period.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pyinterp/core/include/pyinterp/period.hpp b/src/pyinterp/core/include/pyinterp/period.hpp
index 52871d3..f2ca7f3 100644
--- a/src/pyinterp/core/include/pyinterp/period.hpp
+++ b/src/pyinterp/core/include/pyinterp/period.hpp
@@ -2,6 +2,7 @@
 #include <pybind11/pybind11.h>
 
 #include <Eigen/Core>
+#include <algorithm>
 #include <cstdint>
 #include <optional>
 
@@ -379,9 +380,10 @@ class PeriodList {
 
     auto ix = int64_t(1);
     for (auto jx = int64_t(1); jx < result.periods_.size(); ++jx) {
-      auto dt = periods_[jx].begin - periods_[jx - 1].last;
+      auto &last = result.periods_(ix - 1).last;
+      auto dt = periods_[jx].begin - last;
       if (dt <= epsilon) {
-        result.periods_(ix - 1).last = periods_[jx].last;
+        last = std::max(last, periods_[jx].last);
       } else {
         result.periods_(ix) = periods_[jx];
         ++ix;
-- 
2.43.0


From 4382485f75200edfcb7eb22799a6232646dfa5da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:37 +0000
Subject: [PATCH 073/110] fix: periods of a list within a period

---
 src/pyinterp/core/include/pyinterp/period.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyinterp/core/include/pyinterp/period.hpp b/src/pyinterp/core/include/pyinterp/period.hpp
index f2ca7f3..1d4cd55 100644
--- a/src/pyinterp/core/include/pyinterp/period.hpp
+++ b/src/pyinterp/core/include/pyinterp/period.hpp
@@ -402,7 +402,7 @@ class PeriodList {
     auto result = PeriodList(periods_);
     auto ix = int64_t(0);
     for (auto jx = int64_t(0); jx < result.periods_.size(); ++jx) {
-      if (period.intersects(result.periods_(jx))) {
+      if (period.contains(result.periods_(jx))) {
         result.periods_(ix) = result.periods_(jx);
         ++ix;
       }
-- 
2.43.0


From 6e644ed27f3d5a3bec619db7bb827dbec8633efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:37 +0000
Subject: [PATCH 074/110] fix: resolution of the period selecting the periods
 of a list

---
 src/pyinterp/period.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pyinterp/period.py b/src/pyinterp/period.py
index e13397f..36c0f27 100644
--- a/src/pyinterp/period.py
+++ b/src/pyinterp/period.py
@@ -380,6 +380,7 @@ class PeriodList:
         Returns:
             A new PeriodList with only periods within the given period.
         """
+        period = period.as_resolution(_time64_unit(self._datetime64))
         return PeriodList(self._instance.within(period.as_base_class()),
                           dtype=self._datetime64)
 
@@ -394,6 +395,7 @@ class PeriodList:
             A new PeriodList with only periods that intersect the given
             period.
         """
+        period = period.as_resolution(_time64_unit(self._datetime64))
         return PeriodList(self._instance.intersection(period.as_base_class()),
                           dtype=self._datetime64)
 
-- 
2.43.0


From 9c3df8b6f57ada7a858f2f04b1f22a48011b18c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:37 +0000
Subject: [PATCH 075/110] fix: merging lists of periods with different
 resolutions

---
 src/pyinterp/period.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pyinterp/period.py b/src/pyinterp/period.py
index 36c0f27..a6141fa 100644
--- a/src/pyinterp/period.py
+++ b/src/pyinterp/period.py
@@ -433,8 +433,10 @@ class PeriodList:
             A new PeriodList with the periods merged.
         """
         if self._datetime64 != other._datetime64:
-            periods = other.periods.astype(self._datetime64)
-            other = PeriodList(periods, dtype=self._datetime64)
+            periods = other.periods
+            other = PeriodList(
+                numpy.array([periods['begin'],
+                             periods['last']]).astype(self._datetime64))
         self._instance.merge(other._instance)
         return self
 
-- 
2.43.0


From aeb778135256467485da87d3ed34f485bd4f9789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:14 +0000
Subject: [PATCH 076/110] fix: ownership and range of the Python datetime
 objects

---
 src/pyinterp/core/module/dateutils.cpp | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/pyinterp/core/module/dateutils.cpp b/src/pyinterp/core/module/dateutils.cpp
index 9dbb587..2226bb9 100644
--- a/src/pyinterp/core/module/dateutils.cpp
+++ b/src/pyinterp/core/module/dateutils.cpp
@@ -138,7 +138,9 @@ static auto timedelta_since_january(const py::array &array) -> py::array {
 
 static auto datetime(const py::array &array) -> py::array {
   auto frac = fractional_seconds_from_dtype(array.dtype());
-  auto *buffer = new PyObject *[array.size()];
+  auto result = py::array(py::dtype("object"),
+                          py::array::ShapeContainer({array.size()}), nullptr);
+  auto *buffer = static_cast<PyObject **>(result.mutable_data());
   auto _array = array.unchecked<int64_t, 1>();
 
   if (PyDateTimeAPI == nullptr) {
@@ -150,16 +152,18 @@ static auto datetime(const py::array &array) -> py::array {
     auto date = dateutils::date_from_days(days);
     auto time = dateutils::time_from_seconds(seconds);
 
-    buffer[ix] = PyDateTime_FromDateAndTime(
+    auto *item = PyDateTime_FromDateAndTime(
         date.year, date.month, date.day, time.hour, time.minute, time.second,
         static_cast<int>(frac.cast(fractional_part, dateutils::kMicrosecond)));
+    if (item == nullptr) {
+      // The date cannot be represented by a Python object.
+      throw py::error_already_set();
+    }
+    // The array is the owner of the new object.
+    Py_XDECREF(buffer[ix]);
+    buffer[ix] = item;
   }
-  auto capsule = py::capsule(
-      buffer, [](void *ptr) { delete[] static_cast<PyObject *>(ptr); });
-
-  return py::array(py::dtype("object"),
-                   pybind11::array::ShapeContainer({array.size()}), buffer,
-                   capsule);
+  return result;
 }
 
 }  // namespace detail
-- 
2.43.0


From e7969974b897230ff2bffcb9b67f23159505a46c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:14 +0000
Subject: [PATCH 077/110] fix: textual form of the years written with less than
 four digits

---
 .../core/include/pyinterp/dateutils.hpp       | 21 ++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/pyinterp/core/include/pyinterp/dateutils.hpp b/src/pyinterp/core/include/pyinterp/dateutils.hpp
index d8d171c..6625ab8 100644
--- a/src/pyinterp/core/include/pyinterp/dateutils.hpp
+++ b/src/pyinterp/core/include/pyinterp/dateutils.hpp
@@ -472,6 +472,13 @@ constexpr auto datetime_from_minutes(const int64_t minutes)
                          time_from_seconds(minute * kSecondsInMinute));
 }
 
+/// Get the year written with four digits (at least)
+inline auto format_year(const int year) -> std::string {
+  auto ss = std::stringstream{};
+  ss << std::internal << std::setfill('0') << std::setw(4) << year;
+  return ss.str();
+}
+
 /// Convert a datetime64 to a string
 inline auto datetime64_to_string(const int64_t value, const DType &dtype)
     -> std::string {
@@ -483,34 +490,34 @@ inline auto datetime64_to_string(const int64_t value, const DType &dtype)
     // Value is encoded as years elapsed since 1970.
     case DType::kYear:
       date = date_from_years(value);
-      ss << date.year;
+      ss << format_year(date.year);
       break;
 
       // Value is encoded as months elapsed since 1970.
     case DType::kMonth:
       date = date_from_months(value);
-      ss << date.year << "-" << std::setfill('0') << std::setw(2)
+      ss << format_year(date.year) << "-" << std::setfill('0') << std::setw(2)
          << std::to_string(date.month);
       break;
 
       // Value is encoded as weeks elapsed since 1970.
     case DType::kWeek:
       date = date_from_weeks(value);
-      ss << date.year << "-" << std::setfill('0') << std::setw(2) << date.month
+      ss << format_year(date.year) << "-" << std::setfill('0') << std::setw(2) << date.month
          << "-" << std::setfill('0') << std::setw(2) << date.day;
       break;
 
       // Value is encoded as days elapsed since 1970.
     case DType::kDay:
       date = date_from_days(value);
-      ss << date.year << "-" << std::setfill('0') << std::setw(2) << date.month
+      ss << format_year(date.year) << "-" << std::setfill('0') << std::setw(2) << date.month
          << "-" << std::setfill('0') << std::setw(2) << date.day;
       break;
 
       // Value is encoded as hours elapsed since 1970.
     case DType::kHour:
       std::tie(date, time) = datetime_from_hours(value);
-      ss << date.year << "-" << std::setfill('0') << std::setw(2) << date.month
+      ss << format_year(date.year) << "-" << std::setfill('0') << std::setw(2) << date.month
          << "-" << std::setfill('0') << std::setw(2) << date.day << "T"
          << std::setfill('0') << std::setw(2) << time.hour;
       break;
@@ -518,7 +525,7 @@ inline auto datetime64_to_string(const int64_t value, const DType &dtype)
       // Value is encoded as minutes elapsed since 1970.
     case DType::kMinute:
       std::tie(date, time) = datetime_from_minutes(value);
-      ss << date.year << "-" << std::setfill('0') << std::setw(2) << date.month
+      ss << format_year(date.year) << "-" << std::setfill('0') << std::setw(2) << date.month
          << "-" << std::setfill('0') << std::setw(2) << date.day << "T"
          << std::setfill('0') << std::setw(2) << time.hour << ":"
          << std::setfill('0') << std::setw(2) << time.minute;
@@ -542,7 +549,7 @@ inline auto datetime64_to_string(const int64_t value, const DType &dtype)
   time = time_from_seconds(seconds);
 
   // Write the date and time.
-  ss << date.year << "-" << std::setfill('0') << std::setw(2) << date.month
+  ss << format_year(date.year) << "-" << std::setfill('0') << std::setw(2) << date.month
      << "-" << std::setfill('0') << std::setw(2) << date.day << "T"
      << std::setfill('0') << std::setw(2) << time.hour << ":"
      << std::setfill('0') << std::setw(2) << time.minute << ":"
-- 
2.43.0


From 8f179eb4283a6a7da1397749dd02e057ebbbaf87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:12 +0000
Subject: [PATCH 078/110] fix: ephemeris starting near the equator reduced to
 its extreme latitudes

---
 src/pyinterp/orbit.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/pyinterp/orbit.py b/src/pyinterp/orbit.py
index 617f96b..b1cd56c 100644
--- a/src/pyinterp/orbit.py
+++ b/src/pyinterp/orbit.py
@@ -447,15 +447,15 @@ def calculate_orbit(
     wgs = geodetic.Coordinates(spheroid)
 
     # If the first point of the given orbit starts at the equator, we need to
-    # skew this first pass.
+    # skew this first pass: the orbit begins at the first southernmost latitude.
     if -40 <= lat_nadir[0] <= 40:
-        dy = numpy.roll(lat_nadir, 1) - lat_nadir
-        indexes = numpy.where(((dy < 0) & (numpy.roll(dy, 1) >= 0))
-                              | ((dy > 0)
-                                 & (numpy.roll(dy, 1) <= 0)))[0]
-        lat_nadir = lat_nadir[indexes[1:]]
-        lon_nadir = lon_nadir[indexes[1:]]
-        time = time[indexes[1:]]
+        dy = numpy.diff(lat_nadir)
+        indexes = numpy.where((dy[:-1] < 0) & (dy[1:] >= 0))[0]
+        if indexes.size:
+            first = indexes[0] + 1
+            lat_nadir = lat_nadir[first:]
+            lon_nadir = lon_nadir[first:]
+            time = time[first:] - time[first]
 
     lon_nadir = geodetic.normalize_longitudes(lon_nadir)
     time = time.astype('m8[ns]')
-- 
2.43.0


From 893e6a4684a8ed9ec668d12f17c344c918a44738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:12 +0000
Subject: [PATCH 079/110] fix: across track distance of the swath pixels

---
 src/pyinterp/orbit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyinterp/orbit.py b/src/pyinterp/orbit.py
index b1cd56c..a7af594 100644
--- a/src/pyinterp/orbit.py
+++ b/src/pyinterp/orbit.py
@@ -607,7 +607,7 @@ def calculate_swath(
     # Number of points in half of the swath
     half_swath = int((half_swath - half_gap) / across_track_resolution) + 1
     x_ac = numpy.arange(half_swath,
-                        dtype=float) * along_track_resolution + half_gap
+                        dtype=float) * across_track_resolution + half_gap
     x_ac = numpy.hstack((-numpy.flip(x_ac), x_ac)) * 1e3
     x_ac = numpy.full((len(half_orbit), x_ac.size), x_ac)
 
-- 
2.43.0


From 2059516dc53432fea3a90e874aec488b1003f144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:12 +0000
Subject: [PATCH 080/110] fix: swath without gap at the nadir

---
 src/pyinterp/orbit.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/pyinterp/orbit.py b/src/pyinterp/orbit.py
index a7af594..d0c5b85 100644
--- a/src/pyinterp/orbit.py
+++ b/src/pyinterp/orbit.py
@@ -599,9 +599,8 @@ def calculate_swath(
         The properties of the pass.
     """
     across_track_resolution = across_track_resolution or 2.0
-    along_track_resolution = along_track_resolution or 2
     half_swath = half_swath or 70.0
-    half_gap = half_gap or 2.0
+    half_gap = 2.0 if half_gap is None else half_gap
 
     # Compute across track distances from nadir
     # Number of points in half of the swath
-- 
2.43.0


From f09197b4ac317e23763686451eae259edb3b9e99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:12 +0000
Subject: [PATCH 081/110] fix: decoding of the pass numbers before the first
 cycle

---
 src/pyinterp/orbit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyinterp/orbit.py b/src/pyinterp/orbit.py
index d0c5b85..08c1758 100644
--- a/src/pyinterp/orbit.py
+++ b/src/pyinterp/orbit.py
@@ -229,7 +229,7 @@ class Orbit:
             tuple: cycle and pass number
         """
         number -= 1
-        return (int(number / self.passes_per_cycle()) + 1,
+        return (number // self.passes_per_cycle() + 1,
                 (number % self.passes_per_cycle()) + 1)
 
     def encode_absolute_pass_number(self, cycle_number: int,
-- 
2.43.0


From 1b98ba8e6b20a07c2c0543c101b493fe47d68612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:32 +0000
Subject: [PATCH 082/110] fix: equator crossing on the first segment of a pass

---
 src/pyinterp/orbit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyinterp/orbit.py b/src/pyinterp/orbit.py
index 08c1758..27cd7c9 100644
--- a/src/pyinterp/orbit.py
+++ b/src/pyinterp/orbit.py
@@ -383,7 +383,7 @@ def _equator_properties(lon_nadir: NDArray, lat_nadir: NDArray,
 
     # Search the nearest point to the equator
     i1 = (numpy.abs(lat_nadir)).argmin()
-    i0 = i1 - 1 if i1 > 0 else 1
+    i0, i1 = (i1 - 1, i1) if i1 > 0 else (0, 1)
     if lat_nadir[i0] * lat_nadir[i1] > 0:
         i0, i1 = (i1, i1 + 1) if i1 < lat_nadir.size - 1 else (i1 - 1, i1)
     lon1 = lon_nadir[i0:i1 + 1]
-- 
2.43.0


From 68027e445e87ba2e3aa0244a3ed35e2bd2fea741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:32 +0000
Subject: [PATCH 083/110] fix: swath of tracks with less than three points

---
 src/pyinterp/core/include/pyinterp/detail/math/orbit.hpp | 6 ++++++
 src/pyinterp/core/include/pyinterp/geodetic/swath.hpp    | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/src/pyinterp/core/include/pyinterp/detail/math/orbit.hpp b/src/pyinterp/core/include/pyinterp/detail/math/orbit.hpp
index 7d0a401..4a2bc05 100644
--- a/src/pyinterp/core/include/pyinterp/detail/math/orbit.hpp
+++ b/src/pyinterp/core/include/pyinterp/detail/math/orbit.hpp
@@ -18,6 +18,12 @@ template <typename T>
 auto satellite_direction(const Eigen::Matrix<T, Eigen::Dynamic, 3>& location)
     -> Eigen::Matrix<T, Eigen::Dynamic, 3> {
   auto result = Eigen::Matrix<T, Eigen::Dynamic, 3>(location.rows(), 3);
+  if (location.rows() == 2) {
+    // Only one segment defines the direction.
+    result.row(0) = location.row(1) - location.row(0);
+    result.row(1) = result.row(0);
+    return result;
+  }
   auto denominator = location.block(1, 0, location.rows() - 2, 3)
                          .array()
                          .pow(2)
diff --git a/src/pyinterp/core/include/pyinterp/geodetic/swath.hpp b/src/pyinterp/core/include/pyinterp/geodetic/swath.hpp
index 6afe31b..35e6c4b 100644
--- a/src/pyinterp/core/include/pyinterp/geodetic/swath.hpp
+++ b/src/pyinterp/core/include/pyinterp/geodetic/swath.hpp
@@ -6,6 +6,8 @@
 #include <pybind11/eigen.h>
 
 #include <Eigen/Core>
+#include <optional>
+#include <stdexcept>
 #include <tuple>
 
 #include "pyinterp/detail/broadcast.hpp"
@@ -42,6 +44,10 @@ template <typename T>
     -> std::tuple<Eigen::Matrix<T, Eigen::Dynamic, Eigen::Dynamic>,
                   Eigen::Matrix<T, Eigen::Dynamic, Eigen::Dynamic>> {
   detail::check_eigen_shape("lon_nadir", lon_nadir, "lat_nadir", lat_nadir);
+  if (lon_nadir.size() < 2) {
+    throw std::invalid_argument(
+        "the nadir track must contain at least two points");
+  }
   auto spheroid_ = spheroid.value_or(detail::geodetic::Spheroid());
   auto coordinates = detail::geodetic::Coordinates(spheroid_);
   auto location = lla_to_ecef(lon_nadir, lat_nadir, coordinates);
-- 
2.43.0


From b05f6f488ba86976371555efac78050a1970b11f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:22 +0000
Subject: [PATCH 084/110] fix: latitudes of the interpolated orbits

---
 src/pyinterp/orbit.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pyinterp/orbit.py b/src/pyinterp/orbit.py
index 27cd7c9..2ea0e76 100644
--- a/src/pyinterp/orbit.py
+++ b/src/pyinterp/orbit.py
@@ -52,7 +52,9 @@ def interpolate(
         numpy.full_like(lon, height),
     )
 
-    r = numpy.sqrt(x * x + y * y + z * z * mz * mz)
+    # Transforms the spheroid into a sphere.
+    z *= mz
+    r = numpy.sqrt(x * x + y * y + z * z)
 
     x_axis = core.Axis((xp - xp[0]).astype(numpy.float64), 1e-6, False)
     xi = (xi - xp[0]).astype(numpy.float64)
-- 
2.43.0


From 06c6a62d36465df6f2a22c33a08d9af7b1f619d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:03 +0000
Subject: [PATCH 085/110] fix: ephemeris modified by the calculation of the
 orbit

---
 src/pyinterp/orbit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyinterp/orbit.py b/src/pyinterp/orbit.py
index 2ea0e76..2d116d0 100644
--- a/src/pyinterp/orbit.py
+++ b/src/pyinterp/orbit.py
@@ -459,7 +459,7 @@ def calculate_orbit(
             lon_nadir = lon_nadir[first:]
             time = time[first:] - time[first]
 
-    lon_nadir = geodetic.normalize_longitudes(lon_nadir)
+    lon_nadir = geodetic.normalize_longitudes(lon_nadir.copy())
     time = time.astype('m8[ns]')
 
     if numpy.mean(numpy.diff(time)) > numpy.timedelta64(500, 'ms'):
-- 
2.43.0


From 1ef9617837f9658340b8e16789c4bdda02568a67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:03 +0000
Subject: [PATCH 086/110] fix: spurious pass at the beginning of the orbit

---
 src/pyinterp/orbit.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/pyinterp/orbit.py b/src/pyinterp/orbit.py
index 2d116d0..2e230d1 100644
--- a/src/pyinterp/orbit.py
+++ b/src/pyinterp/orbit.py
@@ -145,11 +145,14 @@ def _calculate_pass_time(lat: NDArray,
     Returns:
         Start date of half-orbits.
     """
-    dy = numpy.roll(lat, 1) - lat
-    indexes = numpy.where(((dy < 0) & (numpy.roll(dy, 1) >= 0))
-                          | ((dy > 0)
-                             & (numpy.roll(dy, 1) <= 0)))[0]
-    # The duration of the first pass is zero.
+    dy = numpy.diff(lat)
+    # Indexes of the points following the extreme latitudes.
+    indexes = numpy.where(((dy[1:] > 0) & (dy[:-1] <= 0))
+                          | ((dy[1:] < 0) & (dy[:-1] >= 0)))[0] + 2
+    # The first pass starts with the orbit; the points preceding the first
+    # southernmost latitude, if any, belong to it.
+    if dy[0] > 0:
+        indexes = numpy.insert(indexes, 0, 0)
     indexes[0] = 0
     return time[indexes]
 
-- 
2.43.0


From 5e4182c991038a4ff8de56bb88a5fb2191094fdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:59 +0000
Subject: [PATCH 087/110] fix: position and time of the crossing of the equator

---
 src/pyinterp/orbit.py | 34 ++++++++++------------------------
 1 file changed, 10 insertions(+), 24 deletions(-)

diff --git a/src/pyinterp/orbit.py b/src/pyinterp/orbit.py
index 2e230d1..3d2de32 100644
--- a/src/pyinterp/orbit.py
+++ b/src/pyinterp/orbit.py
@@ -394,34 +394,20 @@ def _equator_properties(lon_nadir: NDArray, lat_nadir: NDArray,
     lon1 = lon_nadir[i0:i1 + 1]
     lat1 = lat_nadir[i0:i1 + 1]
 
-    # Calculate the position of the satellite at the equator
-    intersection = geodetic.LineString(
-        lon1,
-        lat1,
-    ).intersection(
-        geodetic.LineString(numpy.array([lon1[0] - 0.5, lon1[1] + 0.5]),
-                            numpy.array([0, 0], dtype='float64')))
-    if len(intersection) == 0:
+    if lat1[0] * lat1[1] > 0 or lat1[0] == lat1[1]:
         return EquatorCoordinates.undefined()
 
-    point = intersection[0]
-
-    # Calculate the time of the point on the equator
-    lon1 = numpy.insert(lon1, 1, point.lon)
-    lat1 = numpy.insert(lat1, 1, 0)
-    x_al = geodetic.LineString(
-        lon1,
-        lat1,
-    ).curvilinear_distance(strategy='thomas')
-
-    # Pop the along track distance at the equator
-    x_eq = x_al[1]
-    x_al = numpy.delete(x_al, 1)
+    # Calculate the position and the time of the satellite at the equator
+    # (the intersection of a geodesic with the equator handled by Boost is not
+    # reliable)
+    weight = lat1[0] / (lat1[0] - lat1[1])
+    delta = (lon1[1] - lon1[0] + 180) % 360 - 180
+    lon = lon1[:1] + weight * delta
+    t0, t1 = time[i0:i1 + 1].astype('i8')
 
     return EquatorCoordinates(
-        point.lon,
-        numpy.interp(  # type: ignore[arg-type]
-            x_eq, x_al, time[i0:i1 + 1].astype('i8')).astype(time.dtype),
+        geodetic.normalize_longitudes(lon)[0],
+        (t0 + numpy.int64(weight * (t1 - t0))).astype(time.dtype),
     )
 
 
-- 
2.43.0


From 04a5b73ff87eb5c57049296baeee8db4673ea173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:22 +0000
Subject: [PATCH 088/110] fix: passes iterated from or until the epoch

---
 src/pyinterp/orbit.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pyinterp/orbit.py b/src/pyinterp/orbit.py
index 3d2de32..30f04bc 100644
--- a/src/pyinterp/orbit.py
+++ b/src/pyinterp/orbit.py
@@ -279,8 +279,9 @@ class Orbit:
             iterator: An iterator for all passes in the interval pointing to
             the cycle number, pass number and start date of the half-orbit.
         """
-        date = first_date or numpy.datetime64('now')
-        last_date = last_date or date + self.cycle_duration()
+        date = numpy.datetime64('now') if first_date is None else first_date
+        if last_date is None:
+            last_date = date + self.cycle_duration()
         while date <= last_date:
             cycle_number, pass_number = self.decode_absolute_pass_number(
                 absolute_pass_number)
-- 
2.43.0


From 30965dfaa88997c65d0b9b42c325e52d37227713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:29 +0000
Subject: [PATCH 089/110] fix: geohash codes of polygons crossing the
 antimeridian overflowed their buffer

---
 .../core/include/pyinterp/geohash/int64.hpp   |  9 ++++++
 src/pyinterp/core/lib/geohash/int64.cpp       | 28 ++++++++++++++-----
 src/pyinterp/core/lib/geohash/string.cpp      |  6 ++--
 3 files changed, 33 insertions(+), 10 deletions(-)

diff --git a/src/pyinterp/core/include/pyinterp/geohash/int64.hpp b/src/pyinterp/core/include/pyinterp/geohash/int64.hpp
index 1f266d5..6d2fc7b 100644
--- a/src/pyinterp/core/include/pyinterp/geohash/int64.hpp
+++ b/src/pyinterp/core/include/pyinterp/geohash/int64.hpp
@@ -94,6 +94,15 @@ namespace pyinterp::geohash::int64 {
 [[nodiscard]] auto neighbors(uint64_t hash, uint32_t precision)
     -> Eigen::Matrix<uint64_t, 8, 1>;
 
+// Returns the longitude of a column of the grid, counted from its south-west
+// corner. The grid may cross the antimeridian.
+[[nodiscard]] inline auto column(const geodetic::Point &point_sw,
+                                 const double lng_err, const size_t index)
+    -> double {
+  auto lon = point_sw.lon() + static_cast<double>(index) * lng_err;
+  return lon >= 180 ? lon - 360 : lon;
+}
+
 // Returns the property of the grid covering the given box: geohash of the
 // minimum corner point, number of boxes in longitudes and latitudes.
 [[nodiscard]] auto grid_properties(const geodetic::Box &box, uint32_t precision)
diff --git a/src/pyinterp/core/lib/geohash/int64.cpp b/src/pyinterp/core/lib/geohash/int64.cpp
index ccfade1..d39f87f 100644
--- a/src/pyinterp/core/lib/geohash/int64.cpp
+++ b/src/pyinterp/core/lib/geohash/int64.cpp
@@ -7,6 +7,7 @@
 #include <algorithm>
 #include <array>
 #include <iostream>
+#include <stdexcept>
 
 // Ref: https://mmcloughlin.com/posts/geohash-assembly
 namespace pyinterp::geohash::int64 {
@@ -303,30 +304,43 @@ auto neighbors(const uint64_t hash, const uint32_t precision)
 // ---------------------------------------------------------------------------
 auto grid_properties(const geodetic::Box &box, const uint32_t precision)
     -> std::tuple<uint64_t, size_t, size_t> {
+  // The envelope of a geometry crossing the antimeridian ends beyond 180
+  // degrees.
+  const auto shift = box.max_corner().lon() > 180 ? 360.0 : 0.0;
+  const auto ne = geodetic::Point(box.max_corner().lon() - shift,
+                                  box.max_corner().lat());
   auto hash_sw = encode(box.min_corner(), precision);
   auto box_sw = bounding_box(hash_sw, precision);
-  auto box_ne = bounding_box(encode(box.max_corner(), precision), precision);
+  auto box_ne = bounding_box(encode(ne, precision), precision);
+
+  if (box_ne.min_corner().lat() < box_sw.min_corner().lat() ||
+      box_ne.min_corner().lon() + shift < box_sw.min_corner().lon()) {
+    throw std::invalid_argument("the corners of the box are not ordered");
+  }
 
   // Special case: the box is a single point
-  if (box_sw == box_ne) {
+  if (box_sw == box_ne && shift == 0) {
     return std::make_tuple(hash_sw, 1, 1);
   }
 
   // The cells of the maximum corner are part of the grid unless the box only
   // touches their lower edge.
-  auto lon_offset = box.max_corner().lon() > box_ne.min_corner().lon() ? 1 : 0;
-  auto lat_offset = box.max_corner().lat() > box_ne.min_corner().lat() ? 1 : 0;
+  auto lon_offset = ne.lon() > box_ne.min_corner().lon() ? 1 : 0;
+  auto lat_offset = ne.lat() > box_ne.min_corner().lat() ? 1 : 0;
 
   auto lng_lat_err = error_with_precision(precision);
   auto lon_step = static_cast<size_t>(
-      std::round((box_ne.min_corner().lon() - box_sw.min_corner().lon()) /
+      std::round((box_ne.min_corner().lon() + shift -
+                  box_sw.min_corner().lon()) /
                  (std::get<0>(lng_lat_err))));
+  auto lon_max =
+      static_cast<size_t>(std::round(360.0 / std::get<0>(lng_lat_err)));
   auto lat_step = static_cast<size_t>(
       std::round((box_ne.min_corner().lat() - box_sw.min_corner().lat()) /
                  (std::get<1>(lng_lat_err))));
 
   return std::make_tuple(hash_sw,
-                         std::max<size_t>(lon_step + lon_offset, 1),
+                         std::clamp<size_t>(lon_step + lon_offset, 1, lon_max),
                          std::max<size_t>(lat_step + lat_offset, 1));
 }
 
@@ -348,7 +362,7 @@ auto bounding_boxes(const geodetic::Box &box, const uint32_t precision)
         geodetic::Point(0, point_sw.lat() + static_cast<double>(lat) * lat_err);
 
     for (size_t lon = 0; lon < lon_step; ++lon) {
-      point.lon(point_sw.lon() + static_cast<double>(lon) * lng_err);
+      point.lon(column(point_sw, lng_err, lon));
       result(ix++) = encode(point, precision);
     }
   }
diff --git a/src/pyinterp/core/lib/geohash/string.cpp b/src/pyinterp/core/lib/geohash/string.cpp
index 1c66e92..7efc8c2 100644
--- a/src/pyinterp/core/lib/geohash/string.cpp
+++ b/src/pyinterp/core/lib/geohash/string.cpp
@@ -208,7 +208,7 @@ auto bounding_boxes(const std::optional<geodetic::Box> &box,
           0, point_sw.lat() + static_cast<double>(lat) * lat_err);
 
       for (size_t lon = 0; lon < lon_step; ++lon) {
-        point.lon(point_sw.lon() + static_cast<double>(lon) * lng_err);
+        point.lon(int64::column(point_sw, lng_err, lon));
 
         Base32::encode(int64::encode(point, bits), buffer, precision);
         buffer += precision;
@@ -243,7 +243,7 @@ auto mask_cell(const geodetic::Box &box, const Geometry &geometry,
                 0, point_sw.lat() + static_cast<double>(lat) * lat_err);
   
             for (size_t lon = 0; lon < lon_step; ++lon) {
-              point.lon(point_sw.lon() + static_cast<double>(lon) * lng_err);
+              point.lon(int64::column(point_sw, lng_err, lon));
               result(lon, lat) = boost::geometry::intersects(
                   int64::bounding_box(int64::encode(point, bits), bits),
                   geometry);
@@ -285,7 +285,7 @@ static auto select_cell(const double lng_err, const double lat_err,
 
       for (size_t lon = 0; lon < lon_step; ++lon) {
         if (mask(lon, lat)) {
-          point.lon(point_sw.lon() + static_cast<double>(lon) * lng_err);
+          point.lon(int64::column(point_sw, lng_err, lon));
 
           Base32::encode(int64::encode(point, bits), buffer, precision);
           buffer += precision;
-- 
2.43.0


From ec31ec54d458c2705c44ea4a6806adb7a24eb26d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:29 +0000
Subject: [PATCH 090/110] fix: negative sizes of the interpolation window were
 shifted

---
 src/pyinterp/core/include/pyinterp/detail/math/frame.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pyinterp/core/include/pyinterp/detail/math/frame.hpp b/src/pyinterp/core/include/pyinterp/detail/math/frame.hpp
index 6e21154..660f087 100644
--- a/src/pyinterp/core/include/pyinterp/detail/math/frame.hpp
+++ b/src/pyinterp/core/include/pyinterp/detail/math/frame.hpp
@@ -5,6 +5,7 @@
 #pragma once
 #include <Eigen/Core>
 #include <memory>
+#include <stdexcept>
 #include <utility>
 
 #include "pyinterp/detail/math.hpp"
@@ -21,6 +22,9 @@ class CoordsXY {
   /// Creates a new instance
   CoordsXY(const Eigen::Index x_size, const Eigen::Index y_size)
       : x_(new Eigen::VectorXd), y_(new Eigen::VectorXd) {
+    if (x_size <= 0 || y_size <= 0) {
+      throw std::invalid_argument("the size of the window must be positive");
+    }
     auto nx = x_size << 1U;
     auto ny = y_size << 1U;
     x_->resize(nx);
-- 
2.43.0


From a16a81e120dc6986a5fbe354d15a85fc528ff5a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:29 +0000
Subject: [PATCH 091/110] fix: statistics restored from a state of another
 shape were read beyond their end

---
 .../include/pyinterp/descriptive_statistics.hpp  |  1 +
 .../core/include/pyinterp/detail/numpy.hpp       | 16 ++++++++++++++++
 .../include/pyinterp/streaming_histogram.hpp     |  1 +
 3 files changed, 18 insertions(+)

diff --git a/src/pyinterp/core/include/pyinterp/descriptive_statistics.hpp b/src/pyinterp/core/include/pyinterp/descriptive_statistics.hpp
index 67d9a32..279aefc 100644
--- a/src/pyinterp/core/include/pyinterp/descriptive_statistics.hpp
+++ b/src/pyinterp/core/include/pyinterp/descriptive_statistics.hpp
@@ -145,6 +145,7 @@ class DescriptiveStatistics {
     }
     auto accumulators = state[0].cast<Vector<detail::math::Accumulators<T>>>();
     auto shape = state[1].cast<std::vector<pybind11::ssize_t>>();
+    detail::numpy::check_state_shape(shape, accumulators.size());
 
     return std::make_unique<DescriptiveStatistics<T>>(
         std::move(accumulators.template cast<Accumulators>()),
diff --git a/src/pyinterp/core/include/pyinterp/detail/numpy.hpp b/src/pyinterp/core/include/pyinterp/detail/numpy.hpp
index 2feb8f9..d6d0e26 100644
--- a/src/pyinterp/core/include/pyinterp/detail/numpy.hpp
+++ b/src/pyinterp/core/include/pyinterp/detail/numpy.hpp
@@ -6,6 +6,7 @@
 #include <pybind11/numpy.h>
 
 #include <list>
+#include <stdexcept>
 #include <tuple>
 #include <vector>
 
@@ -36,6 +37,21 @@ void check_axis_bounds(
   }
 }
 
+/// Checks that a serialized shape describes the given number of elements.
+inline void check_state_shape(const std::vector<pybind11::ssize_t> &shape,
+                              const pybind11::ssize_t size) {
+  auto product = 1.0;
+  for (auto dim : shape) {
+    if (dim < 0) {
+      throw std::invalid_argument("invalid state");
+    }
+    product *= static_cast<double>(dim);
+  }
+  if (product != static_cast<double>(size)) {
+    throw std::invalid_argument("invalid state");
+  }
+}
+
 /// Converts a flat index into a vector of indices for each dimension of the
 /// tensor.
 inline auto unravel(pybind11::ssize_t index,
diff --git a/src/pyinterp/core/include/pyinterp/streaming_histogram.hpp b/src/pyinterp/core/include/pyinterp/streaming_histogram.hpp
index 3da2f47..bdb216c 100644
--- a/src/pyinterp/core/include/pyinterp/streaming_histogram.hpp
+++ b/src/pyinterp/core/include/pyinterp/streaming_histogram.hpp
@@ -191,6 +191,7 @@ class StreamingHistogram {
     auto marshal_data = state[1].cast<pybind11::bytes>();
     auto accumulators =
         StreamingHistogram::unmarshal(marshal_data.cast<std::string_view>());
+    detail::numpy::check_state_shape(shape, accumulators.size());
     return std::make_unique<StreamingHistogram<T>>(std::move(accumulators),
                                                    std::move(shape));
   }
-- 
2.43.0


From cdec42221dae520ded9d5c2720db0406cfc9ea2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:29 +0000
Subject: [PATCH 092/110] fix: sizes of the serialized histograms were not
 checked

---
 src/pyinterp/core/include/pyinterp/detail/isviewstream.hpp   | 2 +-
 .../include/pyinterp/detail/math/streaming_histogram.hpp     | 3 +++
 src/pyinterp/core/include/pyinterp/streaming_histogram.hpp   | 5 +++++
 3 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/pyinterp/core/include/pyinterp/detail/isviewstream.hpp b/src/pyinterp/core/include/pyinterp/detail/isviewstream.hpp
index 9c689bd..d42a084 100644
--- a/src/pyinterp/core/include/pyinterp/detail/isviewstream.hpp
+++ b/src/pyinterp/core/include/pyinterp/detail/isviewstream.hpp
@@ -64,7 +64,7 @@ class isviewstream : private virtual sviewbuf, public std::istream {
   /// Extract a string_view from the stream.
   auto readview(const std::streamsize count) -> std::string_view {
     auto avail = this->egptr() - this->gptr();
-    auto size = std::min(count, avail);
+    auto size = std::clamp<std::streamsize>(count, 0, avail);
     auto result = std::string_view(gptr(), size);
     seekoff(size, std::ios_base::cur, std::ios_base::in);
     if (avail < count) {
diff --git a/src/pyinterp/core/include/pyinterp/detail/math/streaming_histogram.hpp b/src/pyinterp/core/include/pyinterp/detail/math/streaming_histogram.hpp
index 6577d70..69b3bef 100644
--- a/src/pyinterp/core/include/pyinterp/detail/math/streaming_histogram.hpp
+++ b/src/pyinterp/core/include/pyinterp/detail/math/streaming_histogram.hpp
@@ -107,6 +107,9 @@ class StreamingHistogram {
       ss.read(reinterpret_cast<char *>(&min_), sizeof(T));
       ss.read(reinterpret_cast<char *>(&max_), sizeof(T));
       ss.read(reinterpret_cast<char *>(&size), sizeof(size_t));
+      if (size > state.size() / sizeof(Bin<T>)) {
+        throw std::invalid_argument("invalid state");
+      }
       bins_.resize(size);
       ss.read(reinterpret_cast<char *>(bins_.data()), size * sizeof(Bin<T>));
     } catch (const std::ios_base::failure &e) {
diff --git a/src/pyinterp/core/include/pyinterp/streaming_histogram.hpp b/src/pyinterp/core/include/pyinterp/streaming_histogram.hpp
index bdb216c..1c9c60d 100644
--- a/src/pyinterp/core/include/pyinterp/streaming_histogram.hpp
+++ b/src/pyinterp/core/include/pyinterp/streaming_histogram.hpp
@@ -321,6 +321,11 @@ class StreamingHistogram {
     try {
       auto size = static_cast<Eigen::Index>(0);
       ss.read(reinterpret_cast<char *>(&size), sizeof(size));
+      // Each histogram takes at least the size of its own state
+      if (size < 0 || size > static_cast<Eigen::Index>(data.size() /
+                                                       sizeof(size_t))) {
+        throw std::invalid_argument("invalid state");
+      }
       auto accumulators = Vector<Accumulators>(size);
       for (int ix = 0; ix < size; ++ix) {
         auto size = static_cast<size_t>(0);
-- 
2.43.0


From cbab93d978a9902b36624d1e07bcb138d96ac5f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:37 +0000
Subject: [PATCH 093/110] fix: symmetric windows larger than the axis read out
 of bounds

---
 .../core/include/pyinterp/detail/axis.hpp      | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/pyinterp/core/include/pyinterp/detail/axis.hpp b/src/pyinterp/core/include/pyinterp/detail/axis.hpp
index 5215bfa..46b7c11 100644
--- a/src/pyinterp/core/include/pyinterp/detail/axis.hpp
+++ b/src/pyinterp/core/include/pyinterp/detail/axis.hpp
@@ -434,7 +434,7 @@ class Axis {
               before = math::remainder(len + before, len);
               break;
             case ::pyinterp::axis::kSym:
-              before = math::remainder(-before, len);
+              before = reflect(before, len);
               break;
             default:
               return {};
@@ -454,7 +454,7 @@ class Axis {
               after = math::remainder(after, len);
               break;
             case ::pyinterp::axis::kSym:
-              after = len - 2 - math::remainder(after - len, len);
+              after = reflect(after, len);
               break;
             default:
               return {};
@@ -470,6 +470,20 @@ class Axis {
     return result;
   }
 
+  /// Reflects an index located outside the axis on the ends of the axis, as
+  /// many times as necessary.
+  ///
+  /// @param index index to reflect
+  /// @param length number of elements, at least two.
+  /// @return the index of an element of the axis
+  [[nodiscard]] static constexpr auto reflect(const int64_t index,
+                                              const int64_t length)
+      -> int64_t {
+    const auto period = 2 * (length - 1);
+    const auto result = math::remainder(index, period);
+    return result < length ? result : period - result;
+  }
+
   /// Get a string representation of a coordinate handled by this axis.
   ///
   /// @param value Value to be converted to string
-- 
2.43.0


From 5bb1548cef49ef606eb98dfac01b960978b51add Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:52 +0000
Subject: [PATCH 094/110] fix: streaming histograms read beyond their bins on
 undefined weights or values

---
 .../pyinterp/detail/math/streaming_histogram.hpp     | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/pyinterp/core/include/pyinterp/detail/math/streaming_histogram.hpp b/src/pyinterp/core/include/pyinterp/detail/math/streaming_histogram.hpp
index 69b3bef..dbb90f1 100644
--- a/src/pyinterp/core/include/pyinterp/detail/math/streaming_histogram.hpp
+++ b/src/pyinterp/core/include/pyinterp/detail/math/streaming_histogram.hpp
@@ -203,7 +203,7 @@ class StreamingHistogram {
       return std::numeric_limits<T>::quiet_NaN();
     }
 
-    if (quantile < 0.0 || quantile > 1.0) {
+    if (!(quantile >= 0.0 && quantile <= 1.0)) {
       throw std::invalid_argument("Quantile must be in the range [0, 1]");
     }
 
@@ -221,6 +221,11 @@ class StreamingHistogram {
       return bins_.back().value + (ratio * (max_ - bins_.back().value));
     }
 
+    if (bins_.size() == 1) {
+      // Undefined weight
+      return std::numeric_limits<T>::quiet_NaN();
+    }
+
     auto ix = static_cast<size_t>(0);
     auto mb = qw - bins_.front().weight * 0.5;
     while (ix + 2 < bins_.size() &&
@@ -291,6 +296,11 @@ class StreamingHistogram {
     auto it = std::lower_bound(
         bins_.begin(), bins_.end(), value,
         [](const Bin<T> &lhs, const T &rhs) { return lhs.value <= rhs; });
+    if (it == bins_.end()) {
+      // Undefined values in the bins
+      bins_.emplace_back(Bin<T>{value, weight});
+      return;
+    }
     auto index = std::distance(bins_.begin(), it);
 
     // If the value is already in the histogram, the weight is updated.
-- 
2.43.0


From 742b22d83ac46fc7ad214ae7c03d10476c84813e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:51 +0000
Subject: [PATCH 095/110] fix: undefined dates were printed as the overflow of
 the lowest date

---
 src/pyinterp/core/include/pyinterp/dateutils.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pyinterp/core/include/pyinterp/dateutils.hpp b/src/pyinterp/core/include/pyinterp/dateutils.hpp
index 6625ab8..741c1ab 100644
--- a/src/pyinterp/core/include/pyinterp/dateutils.hpp
+++ b/src/pyinterp/core/include/pyinterp/dateutils.hpp
@@ -8,6 +8,7 @@
 #include <cmath>
 #include <cstdint>
 #include <iomanip>
+#include <limits>
 #include <regex>
 #include <sstream>
 #include <string>
@@ -482,6 +483,10 @@ inline auto format_year(const int year) -> std::string {
 /// Convert a datetime64 to a string
 inline auto datetime64_to_string(const int64_t value, const DType &dtype)
     -> std::string {
+  // Not a Time
+  if (value == std::numeric_limits<int64_t>::min()) {
+    return "NaT";
+  }
   auto date = Date{};
   auto time = Time{};
   auto ss = std::stringstream{};
-- 
2.43.0


From b7f22f8f6319ea00fd00431cb6b38ad742872000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:59 +0000
Subject: [PATCH 096/110] fix: dates of years beyond 32 bits overflowed

---
 src/pyinterp/core/include/pyinterp/dateutils.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/pyinterp/core/include/pyinterp/dateutils.hpp b/src/pyinterp/core/include/pyinterp/dateutils.hpp
index 741c1ab..c80a9a4 100644
--- a/src/pyinterp/core/include/pyinterp/dateutils.hpp
+++ b/src/pyinterp/core/include/pyinterp/dateutils.hpp
@@ -424,8 +424,7 @@ constexpr auto date_from_months(const int64_t months) -> Date {
 constexpr auto date_from_days(int64_t days) noexcept -> Date {
   days += 719468LL;
   // era : 400 year period
-  const auto era =
-      static_cast<int>((days >= 0 ? days : days - 146096LL) / 146097LL);
+  const auto era = (days >= 0 ? days : days - 146096LL) / 146097LL;
   // day of era
   const auto doe = static_cast<unsigned>(days - era * 146097LL);  // [0, 146096]
   // year of era
@@ -438,7 +437,7 @@ constexpr auto date_from_days(int64_t days) noexcept -> Date {
   const auto day = doy - (153 * mon + 2) / 5 + 1;   // [1, 31]
   const auto month = mon < 10 ? mon + 3 : mon - 9;  // [1, 12]
 
-  return {(static_cast<int>(yoe) + era * 400) + static_cast<int>(month <= 2),
+  return {static_cast<int>(yoe + era * 400 + static_cast<int>(month <= 2)),
           month, day};
 }
 
-- 
2.43.0


From 106e2018b35f2d271fe09dc12049b9de1eed7491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:41 +0000
Subject: [PATCH 097/110] fix: pickled axes of angles that do not cover the
 circle lost their angles

---
 src/pyinterp/core/include/pyinterp/axis.hpp        | 9 +++++----
 src/pyinterp/core/include/pyinterp/detail/axis.hpp | 8 +++++---
 2 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/pyinterp/core/include/pyinterp/axis.hpp b/src/pyinterp/core/include/pyinterp/axis.hpp
index 0fa5da4..f43ca03 100644
--- a/src/pyinterp/core/include/pyinterp/axis.hpp
+++ b/src/pyinterp/core/include/pyinterp/axis.hpp
@@ -203,7 +203,8 @@ class Axis : public detail::Axis<T>,
       if (ptr != nullptr) {
         return pybind11::make_tuple(detail::axis::REGULAR, ptr->front(),
                                     ptr->back(), ptr->size(),
-                                    this->is_circle(), ptr->step());
+                                    this->is_circle(), ptr->step(),
+                                    this->is_angle());
       }
     }
     // Irregular
@@ -217,7 +218,7 @@ class Axis : public detail::Axis<T>,
           _values[ix] = ptr->coordinate_value(ix);
         }
         return pybind11::make_tuple(detail::axis::IRREGULAR, values,
-                                    this->is_circle());
+                                    this->is_circle(), this->is_angle());
       }
     }
     // Undefined
@@ -246,7 +247,7 @@ class Axis : public detail::Axis<T>,
             std::unique_ptr<detail::axis::container::Abstract<T>>(
                 new detail::axis::container::Irregular<T>(Eigen::Map<Vector<T>>(
                     ndarray.mutable_data(), ndarray.size()))),
-            state[2].cast<bool>());
+            state[2].cast<bool>(), state[state.size() > 3 ? 3 : 2].cast<bool>());
       }
       case detail::axis::REGULAR: {
         auto axis = std::make_unique<detail::axis::container::Regular<T>>(
@@ -258,7 +259,7 @@ class Axis : public detail::Axis<T>,
         }
         return Axis(std::unique_ptr<detail::axis::container::Abstract<T>>(
                         std::move(axis)),
-                    state[4].cast<bool>());
+                    state[4].cast<bool>(), state[state.size() > 6 ? 6 : 4].cast<bool>());
       }
       default:
         throw std::invalid_argument("invalid state");
diff --git a/src/pyinterp/core/include/pyinterp/detail/axis.hpp b/src/pyinterp/core/include/pyinterp/detail/axis.hpp
index 46b7c11..1d41429 100644
--- a/src/pyinterp/core/include/pyinterp/detail/axis.hpp
+++ b/src/pyinterp/core/include/pyinterp/detail/axis.hpp
@@ -505,10 +505,12 @@ class Axis {
   /// Construction of a serialized instance.
   ///
   /// @param axis Axis handler
-  /// @param is_circle True, if the axis can represent a circle.
-  Axis(std::unique_ptr<axis::container::Abstract<T>> axis, const bool is_circle)
+  /// @param is_circle True, if the axis represents a circle.
+  /// @param is_angle True, if the axis represents an angle.
+  Axis(std::unique_ptr<axis::container::Abstract<T>> axis, const bool is_circle,
+       const bool is_angle)
       : is_circle_(is_circle),
-        circle_(is_circle_ ? T(360) : math::Fill<T>::value()),
+        circle_(is_angle ? T(360) : math::Fill<T>::value()),
         axis_(std::move(axis)) {}
 
  private:
-- 
2.43.0


From 2a981ecb6dfff8796490c60db74e9918ea0097d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:08 +0000
Subject: [PATCH 098/110] fix: pickled temporal grids lost their temporal axis

---
 src/pyinterp/core/include/pyinterp/axis.hpp   |  2 +-
 src/pyinterp/core/include/pyinterp/grid.hpp   | 30 ++++++++++++++++---
 .../core/include/pyinterp/temporal_axis.hpp   |  2 +-
 3 files changed, 28 insertions(+), 6 deletions(-)

diff --git a/src/pyinterp/core/include/pyinterp/axis.hpp b/src/pyinterp/core/include/pyinterp/axis.hpp
index f43ca03..0357ec7 100644
--- a/src/pyinterp/core/include/pyinterp/axis.hpp
+++ b/src/pyinterp/core/include/pyinterp/axis.hpp
@@ -195,7 +195,7 @@ class Axis : public detail::Axis<T>,
   }
 
   /// Get a tuple that fully encodes the state of this instance
-  [[nodiscard]] auto getstate() const -> pybind11::tuple {
+  [[nodiscard]] virtual auto getstate() const -> pybind11::tuple {
     // Regular
     {
       auto ptr = dynamic_cast<detail::axis::container::Regular<T> *>(
diff --git a/src/pyinterp/core/include/pyinterp/grid.hpp b/src/pyinterp/core/include/pyinterp/grid.hpp
index 8256eda..88609fa 100644
--- a/src/pyinterp/core/include/pyinterp/grid.hpp
+++ b/src/pyinterp/core/include/pyinterp/grid.hpp
@@ -7,12 +7,34 @@
 
 #include <memory>
 #include <string>
+#include <type_traits>
 #include <utility>
 
 #include "pyinterp/axis.hpp"
 #include "pyinterp/detail/broadcast.hpp"
+#include "pyinterp/temporal_axis.hpp"
 
 namespace pyinterp {
+namespace detail {
+
+/// Restores the axis of a grid from its state
+///
+/// @tparam AxisType Axis data type
+template <typename AxisType>
+auto axis_from_state(const pybind11::tuple &state)
+    -> std::shared_ptr<pyinterp::Axis<AxisType>> {
+  if constexpr (std::is_same_v<AxisType, int64_t>) {
+    // The state of a temporal axis contains the state of its base class and
+    // its data type.
+    if (state.size() == 2) {
+      return std::make_shared<TemporalAxis>(TemporalAxis::setstate(state));
+    }
+  }
+  return std::make_shared<pyinterp::Axis<AxisType>>(
+      pyinterp::Axis<AxisType>::setstate(state));
+}
+
+}  // namespace detail
 
 /// Cartesian Grid 2D
 ///
@@ -178,8 +200,8 @@ class Grid3D : public Grid2D<DataType, Dimension> {
                       Axis<double>::setstate(tuple[0].cast<pybind11::tuple>())),
                   std::make_shared<Axis<double>>(
                       Axis<double>::setstate(tuple[1].cast<pybind11::tuple>())),
-                  std::make_shared<Axis<AxisType>>(Axis<AxisType>::setstate(
-                      tuple[2].cast<pybind11::tuple>())),
+                  detail::axis_from_state<AxisType>(
+                      tuple[2].cast<pybind11::tuple>()),
                   tuple[3].cast<pybind11::array_t<DataType>>());
   }
 
@@ -229,8 +251,8 @@ class Grid4D : public Grid3D<DataType, AxisType, 4> {
                       Axis<double>::setstate(tuple[0].cast<pybind11::tuple>())),
                   std::make_shared<Axis<double>>(
                       Axis<double>::setstate(tuple[1].cast<pybind11::tuple>())),
-                  std::make_shared<Axis<AxisType>>(Axis<AxisType>::setstate(
-                      tuple[2].cast<pybind11::tuple>())),
+                  detail::axis_from_state<AxisType>(
+                      tuple[2].cast<pybind11::tuple>()),
                   std::make_shared<Axis<double>>(
                       Axis<double>::setstate(tuple[3].cast<pybind11::tuple>())),
                   tuple[4].cast<pybind11::array_t<DataType>>());
diff --git a/src/pyinterp/core/include/pyinterp/temporal_axis.hpp b/src/pyinterp/core/include/pyinterp/temporal_axis.hpp
index bfaa87c..3334207 100644
--- a/src/pyinterp/core/include/pyinterp/temporal_axis.hpp
+++ b/src/pyinterp/core/include/pyinterp/temporal_axis.hpp
@@ -200,7 +200,7 @@ class TemporalAxis : public Axis<int64_t> {
   }
 
   /// @copydoc detail::Axis::getstate() const
-  [[nodiscard]] auto getstate() const -> pybind11::tuple {
+  [[nodiscard]] auto getstate() const -> pybind11::tuple override {
     return pybind11::make_tuple(Axis<int64_t>::getstate(),
                                 static_cast<std::string>(dtype_));
   }
-- 
2.43.0


From f5d1343f0a408032780165d093c2325aba36d696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:06 +0000
Subject: [PATCH 099/110] fix: increasing_axes='inplace' flipped the axes but
 not the array of the caller

---
 src/pyinterp/backends/xarray.py |  6 +++---
 src/pyinterp/grid.py            | 26 ++++++++++++++++++--------
 2 files changed, 21 insertions(+), 11 deletions(-)

diff --git a/src/pyinterp/backends/xarray.py b/src/pyinterp/backends/xarray.py
index 84539d8..0fa43a1 100644
--- a/src/pyinterp/backends/xarray.py
+++ b/src/pyinterp/backends/xarray.py
@@ -185,7 +185,7 @@ class Grid2D(grid.Grid2D):
                       is_circle=geodetic),
             core.Axis(data_array.coords[self._dims[1]].values),
             data_array.transpose(*self._dims).values,
-            increasing_axes='inplace' if increasing_axes else None)
+            increasing_axes='copy' if increasing_axes else None)
 
     def bivariate(self, coords: dict, *args, **kwargs) -> np.ndarray:
         """Evaluate the interpolation defined for the given coordinates.
@@ -272,7 +272,7 @@ class Grid3D(grid.Grid3D):
             core.Axis(data_array.coords[z].values)
             if self._datetime64 is None else self._datetime64[1],
             data_array.transpose(x, y, z).values,
-            increasing_axes='inplace' if increasing_axes else None)
+            increasing_axes='copy' if increasing_axes else None)
 
     def trivariate(self, coords: dict, *args, **kwargs) -> np.ndarray:
         """Evaluate the interpolation defined for the given coordinates.
@@ -375,7 +375,7 @@ class Grid4D(grid.Grid4D):
             if self._datetime64 is None else self._datetime64[1],
             core.Axis(data_array.coords[u].values),
             data_array.transpose(x, y, z, u).values,
-            increasing_axes='inplace' if increasing_axes else None)
+            increasing_axes='copy' if increasing_axes else None)
 
     def quadrivariate(self, coords: dict, *args, **kwargs) -> np.ndarray:
         """Evaluate the interpolation defined for the given coordinates.
diff --git a/src/pyinterp/grid.py b/src/pyinterp/grid.py
index 1119313..c786296 100644
--- a/src/pyinterp/grid.py
+++ b/src/pyinterp/grid.py
@@ -73,16 +73,26 @@ class Grid2D:
                 raise ValueError('increasing_axes '
                                  f'{increasing_axes!r} is not defined')
             inplace = increasing_axes == 'inplace'
+            decreasing = tuple(
+                idx for idx, item in enumerate(args)
+                if isinstance(item, (core.Axis, core.TemporalAxis))
+                and not item.is_ascending())
             # Tuple does not support item assignment
             args = list(args)  # type: ignore[assignment]
-            for idx, item in enumerate(args):
-                if isinstance(item,
-                              (core.Axis,
-                               core.TemporalAxis)) and not item.is_ascending():
-                    args[idx] = item.flip(  # type: ignore[index]
-                        inplace=inplace)
-                    args[-1] = numpy.flip(  # type: ignore[index]
-                        args[-1], axis=idx)
+            flipped = numpy.flip(args[-1], axis=decreasing)
+            if inplace and decreasing:
+                # The array provided must remain aligned with its axes.
+                args[-1][...] = flipped.copy()
+            else:
+                args[-1] = flipped  # type: ignore[index]
+            # The same axis can be used for several dimensions.
+            axes = {id(args[idx]): args[idx] for idx in decreasing}
+            axes = {
+                key: item.flip(inplace=inplace)
+                for key, item in axes.items()
+            }
+            for idx in decreasing:
+                args[idx] = axes[id(args[idx])]  # type: ignore[index]
         self._instance = getattr(core, _class)(*args)
         self._prefix = prefix
 
-- 
2.43.0


From 277226629ed408dd94cf36f21ea422a7ae2e108a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:06 +0000
Subject: [PATCH 100/110] fix: order of the Z and U axes of the 4D grids
 depended on the hash of their names

---
 src/pyinterp/backends/xarray.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyinterp/backends/xarray.py b/src/pyinterp/backends/xarray.py
index 0fa43a1..c1c53b1 100644
--- a/src/pyinterp/backends/xarray.py
+++ b/src/pyinterp/backends/xarray.py
@@ -347,7 +347,7 @@ class Grid4D(grid.Grid4D):
                  increasing_axes: bool = False,
                  geodetic: bool = True):
         x, y = _dims_from_data_array(data_array, geodetic, ndims=4)
-        z, u = tuple(set(data_array.dims) - {x, y})
+        z, u = (dim for dim in data_array.dims if dim not in (x, y))
 
         # Should the grid manage a time axis?
         self._datetime64 = None
-- 
2.43.0


From c446b34ccea7f2bde0ed5bf57c1b6d52ec562185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:06 +0000
Subject: [PATCH 101/110] fix: time differences were not handled as a time axis
 by the 4D grids

---
 src/pyinterp/backends/xarray.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyinterp/backends/xarray.py b/src/pyinterp/backends/xarray.py
index c1c53b1..a21e4a0 100644
--- a/src/pyinterp/backends/xarray.py
+++ b/src/pyinterp/backends/xarray.py
@@ -352,11 +352,11 @@ class Grid4D(grid.Grid4D):
         # Should the grid manage a time axis?
         self._datetime64 = None
         dtype = data_array.coords[z].dtype
-        if 'datetime64' in dtype.name:
+        if 'datetime64' in dtype.name or 'timedelta64' in dtype.name:
             self._datetime64 = z, core.TemporalAxis(
                 data_array.coords[z].values)
         dtype = data_array.coords[u].dtype
-        if 'datetime64' in dtype.name:
+        if 'datetime64' in dtype.name or 'timedelta64' in dtype.name:
             if self._datetime64 is not None:
                 raise ValueError('unable to handle two time axes')
             self._datetime64 = u, core.TemporalAxis(
-- 
2.43.0


From c5599d5d176e56b1b1bf3c641bbd9491d94e2320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:06 +0000
Subject: [PATCH 102/110] fix: coordinates that are not dimensions were used as
 grid axes

---
 src/pyinterp/backends/xarray.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pyinterp/backends/xarray.py b/src/pyinterp/backends/xarray.py
index a21e4a0..1d057f0 100644
--- a/src/pyinterp/backends/xarray.py
+++ b/src/pyinterp/backends/xarray.py
@@ -44,7 +44,8 @@ class AxisIdentifier:
             The name of the coordinate
         """
         for name, coord in self.data_array.coords.items():
-            if hasattr(coord, 'units') and coord.units in units:
+            if name in self.data_array.dims and hasattr(
+                    coord, 'units') and coord.units in units:
                 return name  # type: ignore[return-value]
         return None
 
@@ -94,7 +95,8 @@ def _dims_from_data_array(data_array: xr.DataArray,
 
     if not geodetic:
         return tuple(  # type: ignore[return-value]
-            data_array.coords)[:2]
+            name for name in data_array.coords
+            if name in data_array.dims)[:2]
 
     ident = AxisIdentifier(data_array)
     lon = ident.longitude()
-- 
2.43.0


From 5fb4e3c6f4f787b3dd389eecd97d9bf8514738cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:01 +0000
Subject: [PATCH 103/110] fix: axes of a single value became descending when
 they were flipped

---
 src/pyinterp/core/include/pyinterp/detail/axis/container.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyinterp/core/include/pyinterp/detail/axis/container.hpp b/src/pyinterp/core/include/pyinterp/detail/axis/container.hpp
index de334cd..68d4744 100644
--- a/src/pyinterp/core/include/pyinterp/detail/axis/container.hpp
+++ b/src/pyinterp/core/include/pyinterp/detail/axis/container.hpp
@@ -258,7 +258,7 @@ class Irregular : public Abstract<T> {
   /// @copydoc Abstract::flip()
   auto flip() -> void override {
     std::reverse(points_.data(), points_.data() + points_.size());
-    this->is_ascending_ = !this->is_ascending_;
+    this->is_ascending_ = this->calculate_is_ascending();
   }
 
   /// @copydoc Abstract::is_monotonic() const
@@ -435,7 +435,7 @@ class AbstractRegular : public Abstract<T> {
   auto flip() -> void override {
     start_ = back();
     step_ = -step_;
-    this->is_ascending_ = !this->is_ascending_;
+    this->is_ascending_ = this->calculate_is_ascending();
   }
 
   /// @copydoc Abstract::coordinate_value(const int64_t) const
-- 
2.43.0


From bfb8127f202c422efe3f046db1b848e00c0d5c84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:01 +0000
Subject: [PATCH 104/110] fix: multi-polygons added in place were replaced by a
 copy of another type

---
 src/pyinterp/core/include/pyinterp/geodetic/multipolygon.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyinterp/core/include/pyinterp/geodetic/multipolygon.hpp b/src/pyinterp/core/include/pyinterp/geodetic/multipolygon.hpp
index 7f332a2..4c33985 100644
--- a/src/pyinterp/core/include/pyinterp/geodetic/multipolygon.hpp
+++ b/src/pyinterp/core/include/pyinterp/geodetic/multipolygon.hpp
@@ -38,7 +38,7 @@ class MultiPolygon : public boost::geometry::model::multi_polygon<Polygon> {
   auto append(Polygon &&polygon) -> void { Base::emplace_back(polygon); }
 
   /// Add a multi-polygon to this multipolygon
-  auto operator+=(const MultiPolygon &other) -> MultiPolygon {
+  auto operator+=(const MultiPolygon &other) -> MultiPolygon & {
     Base::insert(Base::end(), other.begin(), other.end());
     return *this;
   }
-- 
2.43.0


From 45baa5b90ab8848e5c0186ccd7df4919e3947156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:44 +0000
Subject: [PATCH 105/110] fix: windowed interpolation: the options expand, wrap
 and sym gave NaN near the edges, the coordinates of the completed window not
 increasing

---
 src/pyinterp/core/include/pyinterp/frame.hpp | 71 +++++++++++++++-----
 1 file changed, 56 insertions(+), 15 deletions(-)

diff --git a/src/pyinterp/core/include/pyinterp/frame.hpp b/src/pyinterp/core/include/pyinterp/frame.hpp
index ec7ba04..149eb18 100644
--- a/src/pyinterp/core/include/pyinterp/frame.hpp
+++ b/src/pyinterp/core/include/pyinterp/frame.hpp
@@ -4,8 +4,10 @@
 // BSD-style license that can be found in the LICENSE file.
 #pragma once
 #include <Eigen/Core>
+#include <cmath>
 #include <cstdint>
 #include <string>
+#include <vector>
 
 #include "pyinterp/axis.hpp"
 #include "pyinterp/detail/math/frame.hpp"
@@ -21,6 +23,42 @@ inline auto index_error(const std::string &axis, const std::string &value,
                               " axis");
 }
 
+/// Gets the coordinates of the elements of a window. Where the boundary option
+/// repeats, wraps or mirrors the elements of the axis, the coordinates carry on
+/// in the same direction, by the distance between the elements, or by the step
+/// of the end of the axis if these elements are not neighbors.
+inline auto window_coordinates(const Axis<double> &axis,
+                               const std::vector<int64_t> &indexes)
+    -> Eigen::VectorXd {
+  const auto size = static_cast<Eigen::Index>(indexes.size());
+  const auto middle = size >> 1U;
+  const auto last = axis.size() - 1;
+  auto result = Eigen::VectorXd(size);
+
+  auto extend = [&](const Eigen::Index ix, const Eigen::Index from,
+                    const double edge_step) {
+    const auto distance = indexes[ix] - indexes[from];
+    if (distance == ix - from && result(from) == axis(indexes[from])) {
+      result(ix) = axis(indexes[ix]);
+    } else if (std::abs(distance) == 1) {
+      const auto step = std::abs(axis(indexes[ix]) - axis(indexes[from]));
+      result(ix) = result(from) + std::copysign(step, edge_step);
+    } else {
+      result(ix) = result(from) + edge_step;
+    }
+  };
+
+  result(middle - 1) = axis(indexes[middle - 1]);
+  result(middle) = axis(indexes[middle]);
+  for (auto ix = middle + 1; ix < size; ++ix) {
+    extend(ix, ix - 1, axis(last) - axis(last - 1));
+  }
+  for (auto ix = middle - 2; ix >= 0; --ix) {
+    extend(ix, ix + 1, axis(0) - axis(1));
+  }
+  return result;
+}
+
 /// Loads the interpolation frame into memory
 template <typename DataType>
 auto load_frame(const Grid2D<DataType> &grid, const double x, const double y,
@@ -45,16 +83,17 @@ auto load_frame(const Grid2D<DataType> &grid, const double x, const double y,
 
   auto x0 = x_axis(x_indexes[0]);
 
-  for (Eigen::Index jx = 0; jx < frame.y()->size(); ++jx) {
-    frame.y(jx) = y_axis(y_indexes[jx]);
+  *frame.y() = window_coordinates(y_axis, y_indexes);
+  if (!x_axis.is_circle()) {
+    *frame.x() = window_coordinates(x_axis, x_indexes);
   }
 
   for (Eigen::Index ix = 0; ix < frame.x()->size(); ++ix) {
     const auto index = x_indexes[ix];
 
-    frame.x(ix) = x_axis.is_angle()
-                      ? detail::math::normalize_angle(x_axis(index), x0, 360.0)
-                      : x_axis(index);
+    if (x_axis.is_circle()) {
+      frame.x(ix) = detail::math::normalize_angle(x_axis(index), x0, 360.0);
+    }
 
     for (Eigen::Index jx = 0; jx < frame.y()->size(); ++jx) {
       frame.q(ix, jx) = static_cast<double>(grid.value(index, y_indexes[jx]));
@@ -93,8 +132,9 @@ auto load_frame(const Grid3D<DataType, AxisType> &grid, const double x,
 
   auto x0 = x_axis(x_indexes[0]);
 
-  for (Eigen::Index jx = 0; jx < frame.y()->size(); ++jx) {
-    frame.y(jx) = y_axis(y_indexes[jx]);
+  *frame.y() = window_coordinates(y_axis, y_indexes);
+  if (!x_axis.is_circle()) {
+    *frame.x() = window_coordinates(x_axis, x_indexes);
   }
 
   for (Eigen::Index kx = 0; kx < frame.z().size(); ++kx) {
@@ -104,9 +144,9 @@ auto load_frame(const Grid3D<DataType, AxisType> &grid, const double x,
   for (Eigen::Index ix = 0; ix < frame.x()->size(); ++ix) {
     const auto x_index = x_indexes[ix];
 
-    frame.x(ix) = x_axis.is_angle() ? detail::math::normalize_angle(
-                                          x_axis(x_index), x0, 360.0)
-                                    : x_axis(x_index);
+    if (x_axis.is_circle()) {
+      frame.x(ix) = detail::math::normalize_angle(x_axis(x_index), x0, 360.0);
+    }
 
     for (Eigen::Index jx = 0; jx < frame.y()->size(); ++jx) {
       const auto y_index = y_indexes[jx];
@@ -156,8 +196,9 @@ auto load_frame(const Grid4D<DataType, AxisType> &grid, const double x,
 
   auto x0 = x_axis(x_indexes[0]);
 
-  for (Eigen::Index jx = 0; jx < frame.y()->size(); ++jx) {
-    frame.y(jx) = y_axis(y_indexes[jx]);
+  *frame.y() = window_coordinates(y_axis, y_indexes);
+  if (!x_axis.is_circle()) {
+    *frame.x() = window_coordinates(x_axis, x_indexes);
   }
 
   for (Eigen::Index kx = 0; kx < frame.z().size(); ++kx) {
@@ -171,9 +212,9 @@ auto load_frame(const Grid4D<DataType, AxisType> &grid, const double x,
   for (Eigen::Index ix = 0; ix < frame.x()->size(); ++ix) {
     const auto x_index = x_indexes[ix];
 
-    frame.x(ix) = x_axis.is_angle() ? detail::math::normalize_angle(
-                                          x_axis(x_index), x0, 360.0)
-                                    : x_axis(x_index);
+    if (x_axis.is_circle()) {
+      frame.x(ix) = detail::math::normalize_angle(x_axis(x_index), x0, 360.0);
+    }
 
     for (Eigen::Index jx = 0; jx < frame.y()->size(); ++jx) {
       const auto y_index = y_indexes[jx];
-- 
2.43.0


From 13608f0696c6d61e91f04539e1759af6f07f9bf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:54 +0000
Subject: [PATCH 106/110] fix: geohash: the units of the longitudes and
 latitudes of GeoHash.grid and to_xarray were swapped

---
 src/pyinterp/_geohash.py          | 4 ++--
 src/pyinterp/geohash/converter.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pyinterp/_geohash.py b/src/pyinterp/_geohash.py
index 637ee69..013f2c1 100644
--- a/src/pyinterp/_geohash.py
+++ b/src/pyinterp/_geohash.py
@@ -70,13 +70,13 @@ class GeoHash(BaseGeoHash):
                     xarray.DataArray(
                         lon,
                         dims=('lon', ),
-                        attrs={'units': 'degrees_north'},
+                        attrs={'units': 'degrees_east'},
                     ),
                     'lat':
                     xarray.DataArray(
                         lat,
                         dims=('lat', ),
-                        attrs={'units': 'degrees_east'},
+                        attrs={'units': 'degrees_north'},
                     ),
                 },
             )
diff --git a/src/pyinterp/geohash/converter.py b/src/pyinterp/geohash/converter.py
index 01d2eee..6f948b3 100644
--- a/src/pyinterp/geohash/converter.py
+++ b/src/pyinterp/geohash/converter.py
@@ -46,9 +46,9 @@ def to_xarray(hashes: numpy.ndarray, data: numpy.ndarray) -> xarray.DataArray:
             'lon':
             xarray.DataArray(x_axis,
                              dims=('lon', ),
-                             attrs={'units': 'degrees_north'}),
+                             attrs={'units': 'degrees_east'}),
             'lat':
             xarray.DataArray(y_axis,
                              dims=('lat', ),
-                             attrs={'units': 'degrees_east'})
+                             attrs={'units': 'degrees_north'})
         })
-- 
2.43.0


From 0a75b0023ee23c767d1e5de40e5c86f36d8c4dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:37 +0000
Subject: [PATCH 107/110] fix: regular axes: a step of zero or a negative size,
 from a damaged state, divided by zero in the lookups

---
 .../core/include/pyinterp/detail/axis/container.hpp  | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/pyinterp/core/include/pyinterp/detail/axis/container.hpp b/src/pyinterp/core/include/pyinterp/detail/axis/container.hpp
index 68d4744..af657a6 100644
--- a/src/pyinterp/core/include/pyinterp/detail/axis/container.hpp
+++ b/src/pyinterp/core/include/pyinterp/detail/axis/container.hpp
@@ -384,7 +384,7 @@ class AbstractRegular : public Abstract<T> {
   /// @param num number of samples in the container
   AbstractRegular(const T start, const T stop, const T num)
       : size_(static_cast<int64_t>(num)), start_(start) {
-    if (num == 0) {
+    if (!(num >= 1)) {
       throw std::invalid_argument("unable to create an empty container.");
     }
     if (start == stop) {
@@ -392,7 +392,8 @@ class AbstractRegular : public Abstract<T> {
           "unable to create a container with a single "
           "value.");
     }
-    step_ = num == 1 ? stop - start : (stop - start) / (num - 1);
+    this->AbstractRegular<T>::step(
+        num == 1 ? stop - start : (stop - start) / (num - 1));
     // The inverse step of this axis is stored in order to optimize the search
     // for an index for a given value by avoiding a division.
     this->is_ascending_ = this->calculate_is_ascending();
@@ -429,7 +430,12 @@ class AbstractRegular : public Abstract<T> {
   /// Set the step between two successive values.
   ///
   /// @param step increment value
-  virtual auto step(const T step) -> void { step_ = step; }
+  virtual auto step(const T step) -> void {
+    if (step == 0) {
+      throw std::invalid_argument("the step between two values must not be null.");
+    }
+    step_ = step;
+  }
 
   /// @copydoc Abstract::flip()
   auto flip() -> void override {
-- 
2.43.0


From c58147822e7eb9a558385b7ad876006e0c8c8204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:10 +0000
Subject: [PATCH 108/110] fix: Parzen windows: the weights beyond the radius
 were negative instead of null

---
 .../core/include/pyinterp/detail/math/window_functions.hpp    | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyinterp/core/include/pyinterp/detail/math/window_functions.hpp b/src/pyinterp/core/include/pyinterp/detail/math/window_functions.hpp
index fed04a2..07aa531 100644
--- a/src/pyinterp/core/include/pyinterp/detail/math/window_functions.hpp
+++ b/src/pyinterp/core/include/pyinterp/detail/math/window_functions.hpp
@@ -111,7 +111,7 @@ constexpr auto parzen(const T &d, const T &r, const T &sampling) -> T {
   if (d <= l / 4) {
     return static_cast<T>(1 - 6 * std::pow(ratio, 2) * (1 - ratio));
   }
-  if (l / 2 <= d || d > l / 4) {
+  if (d <= l / 2) {
     return static_cast<T>(2 * std::pow(1 - ratio, 3));
   }
   return T(0);
@@ -125,7 +125,7 @@ constexpr auto parzen_swot(const T &d, const T &r, const T & /*unused*/) -> T {
   if (d <= l / 4) {
     return static_cast<T>(1 - 6 * std::pow(ratio, 2) + 6 * std::pow(ratio, 3));
   }
-  if (d <= l / 2 || d > l / 4) {
+  if (d <= l / 2) {
     return static_cast<T>(2 * std::pow(1 - ratio, 3));
   }
   return T(0);
-- 
2.43.0


From 84f889b00872ffa52e94e4b04386d44647dca546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:35:47 +0000
Subject: [PATCH 109/110] fix: geohash: neighbors across the antimeridian were
 wrong without the BMI2 instructions

---
 src/pyinterp/core/lib/geohash/int64.cpp | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/pyinterp/core/lib/geohash/int64.cpp b/src/pyinterp/core/lib/geohash/int64.cpp
index d39f87f..1ea0364 100644
--- a/src/pyinterp/core/lib/geohash/int64.cpp
+++ b/src/pyinterp/core/lib/geohash/int64.cpp
@@ -276,28 +276,29 @@ auto neighbors(const uint64_t hash, const uint32_t precision)
   auto box = bounding_box(hash, precision);
   auto center = box.centroid();
   auto [lon_delta, lat_delta] = box.delta(false);
+  // The neighbors may be on the other side of the antimeridian.
+  const auto east = detail::math::normalize_angle(center.lon() + lon_delta,
+                                                  -180.0, 360.0);
+  const auto west = detail::math::normalize_angle(center.lon() - lon_delta,
+                                                  -180.0, 360.0);
 
   return (Eigen::Matrix<uint64_t, 8, 1>() <<
               // N
               encode({center.lon(), center.lat() + lat_delta}, precision),
           // NE,
-          encode({center.lon() + lon_delta, center.lat() + lat_delta},
-                 precision),
+          encode({east, center.lat() + lat_delta}, precision),
           // E,
-          encode({center.lon() + lon_delta, center.lat()}, precision),
+          encode({east, center.lat()}, precision),
           // SE,
-          encode({center.lon() + lon_delta, center.lat() - lat_delta},
-                 precision),
+          encode({east, center.lat() - lat_delta}, precision),
           // S,
           encode({center.lon(), center.lat() - lat_delta}, precision),
           // SW,
-          encode({center.lon() - lon_delta, center.lat() - lat_delta},
-                 precision),
+          encode({west, center.lat() - lat_delta}, precision),
           // W,
-          encode({center.lon() - lon_delta, center.lat()}, precision),
+          encode({west, center.lat()}, precision),
           // NW
-          encode({center.lon() - lon_delta, center.lat() + lat_delta},
-                 precision))
+          encode({west, center.lat() + lat_delta}, precision))
       .finished();
 }
 
-- 
2.43.0


From 780703739e5585801792fd723723f958f36af62a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:36:24 +0000
Subject: [PATCH 110/110] fix: geohash: the codec without BMI2 converted
 negative or undefined numbers to unsigned integers

---
 src/pyinterp/core/lib/geohash/int64.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pyinterp/core/lib/geohash/int64.cpp b/src/pyinterp/core/lib/geohash/int64.cpp
index 1ea0364..4bc3887 100644
--- a/src/pyinterp/core/lib/geohash/int64.cpp
+++ b/src/pyinterp/core/lib/geohash/int64.cpp
@@ -82,6 +82,10 @@ constexpr auto encode_range(const double x, const double r) -> uint32_t {
   if (p >= 1) {
     return std::numeric_limits<uint32_t>::max();
   }
+  // The conversion of a negative or undefined value is undefined.
+  if (!(p > 0)) {
+    return 0;
+  }
   return static_cast<uint32_t>(p * exp232);
 }
 
-- 
2.43.0

