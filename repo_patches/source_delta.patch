From ca77aef2fe13eb1d28ee08bf19b69ac0763e746c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:36:19 +0000
Subject: [PATCH 01/17] fix: merge extrema into unset extrema

An unset std::optional compares less than any value, so merging extrema
into an extrema object without a minimum left that minimum unset.
---
 lib/marc/extrema.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/marc/extrema.h b/lib/marc/extrema.h
index 21e38aa..a8f69ff 100644
--- a/lib/marc/extrema.h
+++ b/lib/marc/extrema.h
@@ -182,10 +182,12 @@ namespace MaRC
              * @todo Should we validate @c e.minimum_ and
              *       @c e.maximum_ as is done in the constructor?
              */
-            if (e.minimum_ && *e.minimum_ < this->minimum_)
+            if (e.minimum_
+                && (!this->minimum_ || *e.minimum_ < *this->minimum_))
                 this->minimum_ = *e.minimum_;
 
-            if (e.maximum_ && *e.maximum_ > this->maximum_)
+            if (e.maximum_
+                && (!this->maximum_ || *e.maximum_ > *this->maximum_))
                 this->maximum_ = *e.maximum_;
         }
 
-- 
2.43.0


From bb0ba405015504f8e8fac1c507184db385ba57da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:39 +0000
Subject: [PATCH 02/17] fix: clip map extrema to both ends of the map data type

A minimum above, or a maximum below, the range of the map data type was
converted to that type without clipping (undefined behavior), and the
largest 64 bit integer was rounded up to a double that does not fit in a
64 bit integer, leaving 64 bit maps without any data in range.
---
 lib/marc/Map_traits.h | 37 ++++++++++++++++++++++++++++++-------
 1 file changed, 30 insertions(+), 7 deletions(-)

diff --git a/lib/marc/Map_traits.h b/lib/marc/Map_traits.h
index 31cd15f..b3db91e 100644
--- a/lib/marc/Map_traits.h
+++ b/lib/marc/Map_traits.h
@@ -79,10 +79,7 @@ namespace MaRC
          */
         static T minimum(double m)
         {
-            constexpr double type_min = std::numeric_limits<T>::lowest();
-
-            // Return the larger of the two minimums.
-            return std::max(m, type_min);
+            return clip(m);
         }
 
         /**
@@ -103,10 +100,36 @@ namespace MaRC
          */
         static T maximum(double m)
         {
-            constexpr double type_max = std::numeric_limits<T>::max();
+            return clip(m);
+        }
+
+    private:
+
+        /// Clip @a v to the range of values supported by type @c T.
+        static T clip(double v)
+        {
+            using limits = std::numeric_limits<T>;
+
+            constexpr T type_min = limits::lowest();
+            T type_max = limits::max();
+
+            if constexpr (limits::is_integer
+                          && (limits::digits
+                              > std::numeric_limits<double>::digits)) {
+                // Not all values of type T are exactly representable
+                // as a double.  Use the largest one that is to avoid
+                // rounding up to a value that doesn't fit in T.
+                type_max -=
+                    type_max >> std::numeric_limits<double>::digits;
+            }
+
+            if (v <= static_cast<double>(type_min))
+                return type_min;
+
+            if (v >= static_cast<double>(type_max))
+                return type_max;
 
-            // Return the smaller of the two maximums.
-            return std::min(m, type_max);
+            return static_cast<T>(v);
         }
     };
 
-- 
2.43.0


From 8db37eeee6b621a57a9cc1022f8314d27f6e8ff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:36 +0000
Subject: [PATCH 03/17] fix: reject not-a-number viewing geometry parameters

---
 lib/marc/ViewingGeometry.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/lib/marc/ViewingGeometry.cpp b/lib/marc/ViewingGeometry.cpp
index b44a761..35eeb5a 100644
--- a/lib/marc/ViewingGeometry.cpp
+++ b/lib/marc/ViewingGeometry.cpp
@@ -655,7 +655,7 @@ MaRC::ViewingGeometry::arcsec_per_pixel(double a)
      * @todo It should not be necessary to expect the caller to set
      *       the range prior to calling this function.
      */
-    if (a <= 0)
+    if (std::isnan(a) || a <= 0)
         throw std::invalid_argument("invalid number of arcseconds");
     else if (std::isnan(this->range_))
         throw std::logic_error("range not previously set");
@@ -689,7 +689,7 @@ MaRC::ViewingGeometry::arcsec_per_pixel(double a)
 void
 MaRC::ViewingGeometry::km_per_pixel(double value)
 {
-    if (value <= 0)
+    if (std::isnan(value) || value <= 0)
         throw std::invalid_argument("invalid kilometers per pixel");
 
     this->km_per_pixel_ =  value;
@@ -728,7 +728,7 @@ MaRC::ViewingGeometry::range(double r)
         std::sqrt(std::numeric_limits<decltype(this->range_)>::max());
 
     // Check if the observer is too close or too far.
-    if (r <= min_range || r >= max_range)
+    if (std::isnan(r) || r <= min_range || r >= max_range)
         throw std::invalid_argument("invalid range");
 
     this->range_ = r;
@@ -737,7 +737,7 @@ MaRC::ViewingGeometry::range(double r)
 void
 MaRC::ViewingGeometry::focal_length(double len)
 {
-    if (len <= 0)
+    if (std::isnan(len) || len <= 0)
         throw std::invalid_argument("invalid focal length");
 
     this->focal_length_ = len;
@@ -746,7 +746,7 @@ MaRC::ViewingGeometry::focal_length(double len)
 void
 MaRC::ViewingGeometry::scale(double s)
 {
-    if (s <= 0)
+    if (std::isnan(s) || s <= 0)
         throw std::invalid_argument("invalid image scale");
 
     this->scale_ = s;
@@ -830,7 +830,7 @@ MaRC::ViewingGeometry::emi_ang_limit(double angle)
 {
     // Any emission angle beyond 90 degrees isn't visible.
     constexpr decltype(angle) max_emission_angle = 90;
-    if (std::abs(angle) > max_emission_angle)
+    if (std::isnan(angle) || std::abs(angle) > max_emission_angle)
         throw std::domain_error("invalid emission angle limit");
 
     this->mu_limit_ = std::cos(angle * C::degree);
-- 
2.43.0


From c046d9518fcba6bbdabbe46ffcbc07ec7e76b421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:46:31 +0000
Subject: [PATCH 04/17] fix: root finding no longer diverges at an exact root

The numerical derivative can be zero at the root, in which case the
Newton-Raphson step was an indeterminate 0 / 0 and the search failed
with a "diverging" exception.
---
 lib/marc/root_find.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/marc/root_find.cpp b/lib/marc/root_find.cpp
index 0bef16f..e39b435 100644
--- a/lib/marc/root_find.cpp
+++ b/lib/marc/root_find.cpp
@@ -232,6 +232,11 @@ MaRC::root_find(double y,
     constexpr int max_iterations = 100;
 
     for (int i = 0; i < max_iterations; ++i) {
+        // Exact root.  A zero numerical derivative would otherwise
+        // cause the next step to be an indeterminate 0 / 0.
+        if (y0 == y)
+            return x0;
+
         double const df = first_derivative(x0, f);
 
         // Bisect if Newtown-Raphson is out of range or not
-- 
2.43.0


From 326782e348231d53759a2fa4a2cfce4316be327f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:53 +0000
Subject: [PATCH 05/17] fix: accept a line of sight tangent to the body

---
 lib/marc/OblateSpheroid.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/marc/OblateSpheroid.cpp b/lib/marc/OblateSpheroid.cpp
index 3a021a0..6909ca7 100644
--- a/lib/marc/OblateSpheroid.cpp
+++ b/lib/marc/OblateSpheroid.cpp
@@ -301,7 +301,7 @@ MaRC::OblateSpheroid::ellipse_intersection(DVector const & vec,
 
     // Use k.second as solution
 
-    assert(k.second < k.first);
+    assert(k.second <= k.first);  // Equal if dvec is tangent.
 
     double const x = vec[0] + k.second * dvec[0];
     double const y = vec[1] + k.second * dvec[1];
-- 
2.43.0


From 8f175102ac0e4d2819437827c6397ec780c9e136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:30 +0000
Subject: [PATCH 06/17] fix: no not-a-number root of a quadratic with a double
 root at zero

---
 lib/marc/Mathematics.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/marc/Mathematics.h b/lib/marc/Mathematics.h
index 55569ad..d4097fa 100644
--- a/lib/marc/Mathematics.h
+++ b/lib/marc/Mathematics.h
@@ -195,7 +195,8 @@ namespace MaRC
             -(b + sgn(b) * std::sqrt(discriminant)) / 2;
 
         roots.first  = q / a;
-        roots.second = c / q;
+        // Both roots are zero if q is zero, i.e. b and c are zero.
+        roots.second = (q == 0 ? 0 : c / q);
 
         return true;
     }
-- 
2.43.0


From e0e562e4df95b3792cd5d67cc6283a49793ae26c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:32 +0000
Subject: [PATCH 07/17] fix: photo data found does not depend on the caller's
 data, which is kept if none is found

---
 lib/marc/PhotoImage.cpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/lib/marc/PhotoImage.cpp b/lib/marc/PhotoImage.cpp
index 9e0b53a..ab8bd4c 100644
--- a/lib/marc/PhotoImage.cpp
+++ b/lib/marc/PhotoImage.cpp
@@ -145,22 +145,25 @@ MaRC::PhotoImage::read_data(double lat,
         || k <  this->top_
         || k >= this->bottom_
         || (!this->body_mask_.empty() && !this->body_mask_[index])
-        || std::isnan(data))
+        || std::isnan(this->image_[index]))
         return false;
 
-    data = this->image_[index];
+    // Leave the caller's data untouched unless there is data.
+    double datum = this->image_[index];
 
     if (!config->interpolation_strategy()->interpolate(
             this->image_.data(),
             x,
             z,
-            data)
+            datum)
         || !config->photometric_correction()->correct(*this->geometry_,
-                                                      data)
-        || std::isnan(data)) {
+                                                      datum)
+        || std::isnan(datum)) {
         return false;
     }
 
+    data = datum;
+
     // Scan across image for "off-planet/image" pixels and compute
     // data weight.
     if (scan)
-- 
2.43.0


From aca787d8a1faa77e6185dd85886d32bcfd247adf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:32 +0000
Subject: [PATCH 08/17] fix: no conversion of photo coordinates outside of the
 image to integers

---
 lib/marc/PhotoImage.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/marc/PhotoImage.cpp b/lib/marc/PhotoImage.cpp
index ab8bd4c..758b2ae 100644
--- a/lib/marc/PhotoImage.cpp
+++ b/lib/marc/PhotoImage.cpp
@@ -117,7 +117,11 @@ MaRC::PhotoImage::read_data(double lat,
 
     double x = 0, z = 0;
 
-    if (!this->geometry_->latlon2pix(lat, lon, x, z) || x < 0 || z < 0)
+    // Coordinates that are outside of the image, or not a number,
+    // may not be convertible to integers.
+    if (!this->geometry_->latlon2pix(lat, lon, x, z)
+        || !(x >= 0 && x < this->samples_)
+        || !(z >= 0 && z < this->lines_))
         return false;
 
     // x and z are 'pixel coordinates'.  In 'pixel coordinates', the
-- 
2.43.0


From caf0e504b9313e447a36f22150d924ac6fbb98bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:32 +0000
Subject: [PATCH 09/17] fix: reject nibble values larger than the photo

---
 lib/marc/PhotoImageParameters.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/marc/PhotoImageParameters.cpp b/lib/marc/PhotoImageParameters.cpp
index 995fa95..ced3194 100644
--- a/lib/marc/PhotoImageParameters.cpp
+++ b/lib/marc/PhotoImageParameters.cpp
@@ -138,14 +138,16 @@ MaRC::PhotoImageParameters::validate_parameters(std::size_t samples,
                                                 std::size_t lines) const
 {
     // Run some sanity checks on nibbling values
-    if (samples - this->nibble_right_ <= this->nibble_left_) {
+    if (samples <= this->nibble_right_
+        || samples - this->nibble_right_ <= this->nibble_left_) {
         throw
             std::invalid_argument(
                 "Either the left or right (or both) "
                 "nibble value is too large.");
     }
 
-    if (lines - this->nibble_top_ <= this->nibble_bottom_) {
+    if (lines <= this->nibble_top_
+        || lines - this->nibble_top_ <= this->nibble_bottom_) {
         throw
             std::invalid_argument(
                 "Either the top or bottom (or both) "
-- 
2.43.0


From 0cd92f8d2e7813515f3943fe373d9f3094f6eb30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:32 +0000
Subject: [PATCH 10/17] fix: interpolate along the right edge instead of
 extrapolating

---
 lib/marc/BilinearInterpolation.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/lib/marc/BilinearInterpolation.cpp b/lib/marc/BilinearInterpolation.cpp
index 91226ed..948ac5c 100644
--- a/lib/marc/BilinearInterpolation.cpp
+++ b/lib/marc/BilinearInterpolation.cpp
@@ -61,10 +61,14 @@ MaRC::BilinearInterpolation::interpolate(double const * data,
         // [0][0]
         tmp += (data[ob + r] - data[ob + l]) * (x - l) + data[ob + l];
 
-        // [1][1] =
-        tmp += (data[ob + r] - data[ob + l]) * (z - b) + data[ob + r];
+        ++count;
+    }
 
-        count += 2;
+    if (!std::isnan(data[ot + r]) && !std::isnan(data[ob + r])) {
+        // [1][1]
+        tmp += (data[ot + r] - data[ob + r]) * (z - b) + data[ob + r];
+
+        ++count;
     }
 
     if (!std::isnan(data[ot + r]) && !std::isnan(data[ot + l])) {
-- 
2.43.0


From 1486f5c765df11e409dc250aaf81cd980c0a47f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:47 +0000
Subject: [PATCH 11/17] fix: data weight is the distance to the closest sky
 pixel

---
 lib/marc/PhotoImage.cpp | 89 ++++++++++++++++-------------------------
 lib/marc/PhotoImage.h   | 36 ++++++++---------
 2 files changed, 51 insertions(+), 74 deletions(-)

diff --git a/lib/marc/PhotoImage.cpp b/lib/marc/PhotoImage.cpp
index 758b2ae..758bc32 100644
--- a/lib/marc/PhotoImage.cpp
+++ b/lib/marc/PhotoImage.cpp
@@ -177,58 +177,47 @@ MaRC::PhotoImage::read_data(double lat,
 }
 
 void
-MaRC::PhotoImage::scan_samples(std::size_t line,
-                               std::size_t left,
-                               std::size_t right,
+MaRC::PhotoImage::scan_samples(std::size_t i,
+                               std::size_t k,
                                double & weight) const
 {
-    // Scan across samples on given line.
+    // Scan across samples on line k, moving away from sample i.
 
-    auto const offset    = line * this->samples_;
-    auto       body_iter = std::cbegin(this->body_mask_) + offset;
+    auto const offset = k * this->samples_;
 
-    // Search the half-open interval [left, right).
-    auto const begin  = body_iter + left;
-    auto const end    = body_iter + right;
-    auto const result = std::find(begin, end, true);
-
-    assert(begin <= result);
-
-    // The weight is the shortest distance.
-    if (result != end)
-        weight =
-            std::min(
-                static_cast<
-                std::remove_reference<decltype(weight)>::type>(
-                    std::distance(begin, result)),
-                weight);
+    // The weight is the shortest distance to a sky pixel.
+    for (auto s = i; s > this->left_; --s)
+        if (!this->body_mask_[offset + s - 1]) {
+            weight = std::min(static_cast<double>(i - (s - 1)), weight);
+            break;
+        }
 
+    for (auto s = i; s < this->right_; ++s)
+        if (!this->body_mask_[offset + s]) {
+            weight = std::min(static_cast<double>(s - i), weight);
+            break;
+        }
 }
 
 void
 MaRC::PhotoImage::scan_lines(std::size_t i,
-                             std::size_t top,
-                             std::size_t bottom,
+                             std::size_t k,
                              double & weight) const
 {
-    // Search the half-open interval [top, bottom).
-    auto body_iter =
-        std::cbegin(this->body_mask_) + (top * this->samples_) + i;
-
-    auto const first = top;
-    auto const last  = bottom;
-    auto       line = first;
-
-    for (; line < last && *body_iter; ++line)
-        std::advance(body_iter, this->samples_); // Sample i in next
-                                                 // line in mask.
-
-    if (line != last)
-        weight =
-            std::min(
-                static_cast<
-                std::remove_reference<decltype(weight)>::type>(line - first),
-                weight);
+    // Scan across lines on sample i, moving away from line k.
+
+    // The weight is the shortest distance to a sky pixel.
+    for (auto l = k; l > this->top_; --l)
+        if (!this->body_mask_[(l - 1) * this->samples_ + i]) {
+            weight = std::min(static_cast<double>(k - (l - 1)), weight);
+            break;
+        }
+
+    for (auto l = k; l < this->bottom_; ++l)
+        if (!this->body_mask_[l * this->samples_ + i]) {
+            weight = std::min(static_cast<double>(l - k), weight);
+            break;
+        }
 }
 
 void
@@ -268,21 +257,11 @@ MaRC::PhotoImage::data_weight(std::size_t i,
     if (this->body_mask_.empty())
         return;
 
-    // -----------------------------------------------------
-
-    // Scan across the half-open interval [left, i) on line k.
-    this->scan_samples(k, this->left_, i, weight);
-
-    // Scan across the half-open interval [i, right) on line k.
-    this->scan_samples(k, i, this->right_, weight);
-
-    // -----------------------------------------------------
+    // Scan across the half-open interval [left, right) on line k.
+    this->scan_samples(i, k, weight);
 
     // Line numbers increase from top to bottom.
 
-    // Scan across the half-open interval [top, k) on sample i.
-    this->scan_lines(i, this->top_, k, weight);
-
-    // Scan across the half-open interval [k, bottom) on sample i.
-    this->scan_lines(i, k, this->bottom_, weight);
+    // Scan across the half-open interval [top, bottom) on sample i.
+    this->scan_lines(i, k, weight);
 }
diff --git a/lib/marc/PhotoImage.h b/lib/marc/PhotoImage.h
index b287dfa..0177bf5 100644
--- a/lib/marc/PhotoImage.h
+++ b/lib/marc/PhotoImage.h
@@ -131,35 +131,33 @@ namespace MaRC
         /**
          * @brief Scan across samples for the data weight.
          *
-         * Scan samples across the given line for the data weight in
-         * the half-open interval [left, right).
+         * Scan samples across the given line, on both sides of the
+         * given sample, for the sky pixel closest to it.
          *
-         * @param[in]  line   Image line across which scan should
-         *                    occur.
-         * @param[in]  left   Sample at which scan should be started.
-         * @param[in]  right  Sample at which scan should be stopped.
-         * @param[out] weight Data weight for the given image line.
+         * @param[in]     sample Sample at which scan should start.
+         * @param[in]     line   Image line across which scan should
+         *                       occur.
+         * @param[in,out] weight Data weight, lowered to the distance
+         *                       to the closest sky pixel.
          */
-        void scan_samples(std::size_t line,
-                          std::size_t left,
-                          std::size_t right,
+        void scan_samples(std::size_t sample,
+                          std::size_t line,
                           double & weight) const;
 
         /**
          * @brief Scan across lines for the data weight.
          *
-         * Scan lines across the given sample for the data weight in
-         * in the half-open interval [top, bottom).
+         * Scan lines across the given sample, on both sides of the
+         * given line, for the sky pixel closest to it.
          *
-         * @param[in]  sample Image sample across which scan should
-         *                    occur.
-         * @param[in]  top    Line at which scan should be started.
-         * @param[in]  bottom Line at which scan should be stopped.
-         * @param[out] weight Data weight for the given image sample.
+         * @param[in]     sample Image sample across which scan should
+         *                       occur.
+         * @param[in]     line   Line at which scan should start.
+         * @param[in,out] weight Data weight, lowered to the distance
+         *                       to the closest sky pixel.
          */
         void scan_lines(std::size_t sample,
-                        std::size_t top,
-                        std::size_t bottom,
+                        std::size_t line,
                         double & weight) const;
 
         /**
-- 
2.43.0


From 04c07b74ea8057166184752254ad48656aa470de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:54:30 +0000
Subject: [PATCH 12/17] fix: longitude of a photo pixel on bodies that rotate
 retrograde

The longitude at a pixel is relative to the sub-observation longitude.
It increases in the opposite direction on retrograde bodies, but is
still added to the sub-observation longitude, consistently with
latlon2pix().
---
 lib/marc/ViewingGeometry.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/marc/ViewingGeometry.cpp b/lib/marc/ViewingGeometry.cpp
index 35eeb5a..00807c1 100644
--- a/lib/marc/ViewingGeometry.cpp
+++ b/lib/marc/ViewingGeometry.cpp
@@ -944,7 +944,7 @@ MaRC::ViewingGeometry::pix2latlon(double sample,
         if (this->body_->prograde())
             lon  = this->sub_observ_lon_ - lon;
         else
-            lon -= this->sub_observ_lon_;
+            lon += this->sub_observ_lon_;
     }
 
     return success == 0;
-- 
2.43.0


From 576141fe224c41fbd3ede7a6d2fbd066aabfd728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:54:30 +0000
Subject: [PATCH 13/17] fix: order of the geometric correction arguments

GeometricCorrection::image_to_object() accepts the line before the
sample.
---
 lib/marc/ViewingGeometry.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/marc/ViewingGeometry.cpp b/lib/marc/ViewingGeometry.cpp
index 00807c1..a6f79aa 100644
--- a/lib/marc/ViewingGeometry.cpp
+++ b/lib/marc/ViewingGeometry.cpp
@@ -913,7 +913,7 @@ MaRC::ViewingGeometry::pix2latlon(double sample,
                                          // bottom (?)
 
     // Convert from image space to object space.
-    this->geometric_correction_->image_to_object(sample, line);
+    this->geometric_correction_->image_to_object(line, sample);
 
     // ---------------------------------------------
 
-- 
2.43.0


From 49879aefe0da02bc3caf641130c02551bd225db7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:12:23 +0000
Subject: [PATCH 14/17] fix: orientation of photos centered off the
 sub-observation meridian

The rotation about the polar axis was derived from the range vector,
which by definition lies in the plane of the sub-observation meridian,
instead of the optical axis.  A photo whose latitude and longitude at
center lie elsewhere was therefore not centered on them.
---
 lib/marc/ViewingGeometry.cpp | 27 +++++++++++----------------
 lib/marc/ViewingGeometry.h   |  9 +++------
 2 files changed, 14 insertions(+), 22 deletions(-)

diff --git a/lib/marc/ViewingGeometry.cpp b/lib/marc/ViewingGeometry.cpp
index a6f79aa..cfe8206 100644
--- a/lib/marc/ViewingGeometry.cpp
+++ b/lib/marc/ViewingGeometry.cpp
@@ -341,10 +341,9 @@ MaRC::ViewingGeometry::finalize_setup(std::size_t samples,
         // Optical axis in body coordinates
         DVector const OpticalAxis(OA_prime - r_OA);
 
-        this->rot_matrices(this->range_b_,
-                           OpticalAxis,
-                           this->observ2body_,
-                           this->body2observ_);
+        this->rot_matrices_at_center(OpticalAxis,
+                                     this->observ2body_,
+                                     this->body2observ_);
 
         // Set perpendicular distance from observer to image plane in
         // case focal length and scale are not set or used.
@@ -494,10 +493,9 @@ MaRC::ViewingGeometry::rot_matrices(DVector const & range_o,
 
 // Get rotation matrices for case when lat/lon at optical axis were given
 void
-MaRC::ViewingGeometry::rot_matrices(DVector const & range_b,
-                                    DVector const & OA,
-                                    DMatrix & observ2body,
-                                    DMatrix & body2observ)
+MaRC::ViewingGeometry::rot_matrices_at_center(DVector const & OA,
+                                              DMatrix & observ2body,
+                                              DMatrix & body2observ)
 {
     // Unit vector representing North pole in body coordinates.
     constexpr DVector body_north(0, 0, 1);
@@ -525,11 +523,9 @@ MaRC::ViewingGeometry::rot_matrices(DVector const & range_b,
     SubLatMod[0] = std::asin(-dotProd);  // Angle between equatorial
                                          // plane and OA.
 
-    DVector rotated;
-    Geometry::RotX(-SubLatMod[0], range_b, rotated);
-    DVector R_b = rotated;
-
-    double const Ztwist1 = std::atan2(R_b[0], -R_b[1]);
+    // Angle between the sub-observation meridian and OA.
+    double const Ztwist1 =
+        std::atan2(UnitOpticalAxis[0], UnitOpticalAxis[1]);
 
     // Observer to body transformation
     DMatrix o2b(Geometry::RotZMatrix(Ztwist1)
@@ -555,10 +551,9 @@ MaRC::ViewingGeometry::rot_matrices(DVector const & range_b,
      */
     // Try second possibility
     SubLatMod[1] = C::pi - SubLatMod[0];
-    Geometry::RotX(-SubLatMod[1], range_b, rotated);
-    R_b = rotated;
 
-    double const Ztwist2 = std::atan2(R_b[0], -R_b[1]);
+    double const Ztwist2 =
+        std::atan2(-UnitOpticalAxis[0], -UnitOpticalAxis[1]);
 
     // Observer to body transformation
     o2b =
diff --git a/lib/marc/ViewingGeometry.h b/lib/marc/ViewingGeometry.h
index da5646e..99b2fe7 100644
--- a/lib/marc/ViewingGeometry.h
+++ b/lib/marc/ViewingGeometry.h
@@ -360,8 +360,6 @@ namespace MaRC
         /// Get rotation matrices for case when lat/lon at optical axis
         /// were given.
         /**
-         * @param[in]  range_b     The range vector in body
-         *                         coordinates.
          * @param[in]  OA          The optical axis vector in body
          *                         coordinates.
          * @param[out] observ2body Observer to body coordinates
@@ -369,10 +367,9 @@ namespace MaRC
          * @param[out] body2observ Body to observer coordinates
          *                         transformation matrix.
          */
-        void rot_matrices(DVector const & range_b,
-                          DVector const & OA,
-                          DMatrix & observ2body,
-                          DMatrix & body2observ);
+        void rot_matrices_at_center(DVector const & OA,
+                                    DMatrix & observ2body,
+                                    DMatrix & body2observ);
 
     private:
 
-- 
2.43.0


From 919dc0126e812e4343b02332ce214234ddb849be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:13:33 +0000
Subject: [PATCH 15/17] fix: orientation of photos of bodies on the line of the
 optical axis

Rounding could make the discriminant of the quadratic equation solved
for the orientation of the camera negative if the exact value is zero.
No orientation was set in that case, and no data found in the photo.
---
 lib/marc/ViewingGeometry.cpp | 29 ++++++++++++++++++++++++-----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/lib/marc/ViewingGeometry.cpp b/lib/marc/ViewingGeometry.cpp
index cfe8206..311df29 100644
--- a/lib/marc/ViewingGeometry.cpp
+++ b/lib/marc/ViewingGeometry.cpp
@@ -22,6 +22,7 @@
 # include "vector_formatter.h"
 #endif  // NDEBUG
 
+#include <algorithm>
 #include <cmath>
 #include <limits>
 #include <stdexcept>
@@ -371,15 +372,27 @@ MaRC::ViewingGeometry::rot_matrices(DVector const & range_o,
     r_o = rotated;
     DVector const temp2(rotated);
 
+    /*
+      Find the roots of a * x * x + b * x + c = 0, where x is the sine
+      of the modified sub-observation latitude, and
+
+          a = r_o[2] * r_o[2] + r_o[1] * r_o[1]
+          b = 2 * r_o[1] * sin(sub_observ_lat)
+          c = sin(sub_observ_lat) * sin(sub_observ_lat)
+              - r_o[2] * r_o[2]
+
+      The discriminant b * b - 4 * a * c is factored since rounding
+      could otherwise make it negative if r_o[2] is zero or very small
+      compared to r_o[1].
+    */
+    double const sine = std::sin(this->sub_observ_lat_);
     double const a = r_o[2] * r_o[2] + r_o[1] * r_o[1];
-    double const b = 2 * r_o[1] * std::sin(this->sub_observ_lat_);
-    double const c =
-        std::sin(this->sub_observ_lat_) * std::sin(this->sub_observ_lat_)
-        - r_o[2] * r_o[2];
+    double const d = a - sine * sine;
 
     std::pair<double, double> SubLatModSin;
 
-    if (!MaRC::quadratic_roots(a, b, c, SubLatModSin)) {
+    // Tolerate rounding errors.
+    if (!(d >= -4 * std::numeric_limits<double>::epsilon())) {
         /*
           No real roots.
 
@@ -392,6 +405,12 @@ MaRC::ViewingGeometry::rot_matrices(DVector const & range_o,
         return false;  // Failure
     }
 
+    double const root =
+        std::abs(r_o[2]) * std::sqrt(std::max(d, 0.));
+
+    SubLatModSin.first  = std::clamp((-r_o[1] * sine + root) / a, -1., 1.);
+    SubLatModSin.second = std::clamp((-r_o[1] * sine - root) / a, -1., 1.);
+
     // ------------- TRY THE FIRST ROOT ------------
     double SubLatMod = std::asin(SubLatModSin.first);
 
-- 
2.43.0


From 8c67991ea4366973b57bf01976950f141b81ac08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:53:59 +0000
Subject: [PATCH 16/17] fix: keep cosines in virtual images within [-1, 1]

Rounding pushes the cosine of the emission, incidence or phase angle
slightly beyond one where the directions are aligned, which violated an
assertion.
---
 lib/marc/CosPhaseImage.cpp | 5 +++--
 lib/marc/Mu0Image.cpp      | 5 +++--
 lib/marc/MuImage.cpp       | 5 +++--
 3 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/lib/marc/CosPhaseImage.cpp b/lib/marc/CosPhaseImage.cpp
index 843149f..d1cd792 100644
--- a/lib/marc/CosPhaseImage.cpp
+++ b/lib/marc/CosPhaseImage.cpp
@@ -13,7 +13,7 @@
 #include "Constants.h"
 #include "config.h"  // For NDEBUG.
 
-#include <cassert>
+#include <algorithm>
 
 
 MaRC::CosPhaseImage::CosPhaseImage(std::shared_ptr<BodyData> body,
@@ -51,7 +51,8 @@ MaRC::CosPhaseImage::read_data_i(double lat,
                                   lon,
                                   this->range_);
 
-    assert(data >= -1 && data <= 1);
+    // Rounding may have pushed the cosine slightly beyond +/-1.
+    data = std::clamp(data, -1.0, 1.0);
 
     return true;
 }
diff --git a/lib/marc/Mu0Image.cpp b/lib/marc/Mu0Image.cpp
index a20e060..39a7b15 100644
--- a/lib/marc/Mu0Image.cpp
+++ b/lib/marc/Mu0Image.cpp
@@ -13,7 +13,7 @@
 #include "Constants.h"
 #include "config.h"  // For NDEBUG.
 
-#include <cassert>
+#include <algorithm>
 
 
 MaRC::Mu0Image::Mu0Image(std::shared_ptr<BodyData> body,
@@ -42,7 +42,8 @@ MaRC::Mu0Image::read_data_i(double lat, double lon, double & data) const
                             lat,
                             lon);
 
-    assert(data >= -1 && data <= 1);
+    // Rounding may have pushed the cosine slightly beyond +/-1.
+    data = std::clamp(data, -1.0, 1.0);
 
     return true;
 }
diff --git a/lib/marc/MuImage.cpp b/lib/marc/MuImage.cpp
index 9d327ad..24de5b8 100644
--- a/lib/marc/MuImage.cpp
+++ b/lib/marc/MuImage.cpp
@@ -13,7 +13,7 @@
 #include "Constants.h"
 #include "config.h"  // For NDEBUG.
 
-#include <cassert>
+#include <algorithm>
 
 
 MaRC::MuImage::MuImage(std::shared_ptr<BodyData> body,
@@ -45,7 +45,8 @@ MaRC::MuImage::read_data_i(double lat, double lon, double & data) const
                            lon,
                            this->range_);
 
-    assert(data >= -1 && data <= 1);
+    // Rounding may have pushed the cosine slightly beyond +/-1.
+    data = std::clamp(data, -1.0, 1.0);
 
     return true;
 }
-- 
2.43.0


From da83acf5ed1fa89d3b2f282a752cac8efb22c891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:54:04 +0000
Subject: [PATCH 17/17] fix: sign of the linear term of the line of sight in
 Orthographic maps

The point found was not on the spheroid unless it is a sphere or seen
from its equatorial plane: elements showed points a pixel or more away.
---
 lib/marc/Orthographic.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/marc/Orthographic.cpp b/lib/marc/Orthographic.cpp
index f660d5c..c7af384 100644
--- a/lib/marc/Orthographic.cpp
+++ b/lib/marc/Orthographic.cpp
@@ -348,7 +348,7 @@ MaRC::Orthographic::plot_map(std::size_t samples,
             }
 
             double const CB =
-                diff * zz * std::sin(2 * this->sub_observ_lat_);
+                -diff * zz * std::sin(2 * this->sub_observ_lat_);
             double const CC =
                 a2 * zz * zz + c2 * x * x - a2 * c2 - diff *
                 zz * zz * std::pow(std::sin(this->sub_observ_lat_), 2);
-- 
2.43.0

