From 9ec89d7c484b628b4d8c3d6f165044cd58270a9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:11 +0000
Subject: [PATCH 01/36] fix: report the out-of-bounds status when the
 computation runs on a single thread

---
 extra_src/das.cc        | 2 ++
 src/dream_arr_annu.cc   | 2 ++
 src/dream_arr_circ.cc   | 2 ++
 src/dream_arr_cylind.cc | 2 ++
 src/dream_arr_rect.cc   | 2 ++
 src/dreamcirc.cc        | 2 ++
 src/dreamcirc_f.cc      | 2 ++
 src/dreamcylind.cc      | 2 ++
 src/dreamline.cc        | 2 ++
 src/dreamrect.cc        | 2 ++
 src/dreamrect_f.cc      | 2 ++
 src/dreamsphere.cc      | 2 ++
 12 files changed, 24 insertions(+)

diff --git a/extra_src/das.cc b/extra_src/das.cc
index a02dbba..d395e84 100644
--- a/extra_src/das.cc
+++ b/extra_src/das.cc
@@ -287,6 +287,8 @@ SIRError DAS<T>::das(const T *Y, const T *Ro, const T *Gt, const T *Gr,
       }
 
     }
+  } else {
+    err = D[0].err;
   }
 
   // Free memory.
diff --git a/src/dream_arr_annu.cc b/src/dream_arr_annu.cc
index 86e13cb..23347a4 100644
--- a/src/dream_arr_annu.cc
+++ b/src/dream_arr_annu.cc
@@ -619,6 +619,8 @@ SIRError ArrAnnu::dream_arr_annu(double alpha,
       }
 
     }
+  } else {
+    err = D[0].err;
   }
 
   // Free memory.
diff --git a/src/dream_arr_circ.cc b/src/dream_arr_circ.cc
index f6b8d9a..ae91b5b 100644
--- a/src/dream_arr_circ.cc
+++ b/src/dream_arr_circ.cc
@@ -418,6 +418,8 @@ SIRError ArrCirc::dream_arr_circ(double alpha,
       }
 
     }
+  } else {
+    err = D[0].err;
   }
 
   // Free memory.
diff --git a/src/dream_arr_cylind.cc b/src/dream_arr_cylind.cc
index 61d6e13..88a4251 100644
--- a/src/dream_arr_cylind.cc
+++ b/src/dream_arr_cylind.cc
@@ -426,6 +426,8 @@ SIRError ArrCylind::dream_arr_cylind(double alpha,
       }
 
     }
+  } else {
+    err = D[0].err;
   }
 
   // Free memory.
diff --git a/src/dream_arr_rect.cc b/src/dream_arr_rect.cc
index b6ee4ea..78e53af 100644
--- a/src/dream_arr_rect.cc
+++ b/src/dream_arr_rect.cc
@@ -422,6 +422,8 @@ SIRError ArrRect::dream_arr_rect(double alpha,
       }
 
     }
+  } else {
+    err = D[0].err;
   }
 
   // Free memory.
diff --git a/src/dreamcirc.cc b/src/dreamcirc.cc
index e376b23..a18bb96 100644
--- a/src/dreamcirc.cc
+++ b/src/dreamcirc.cc
@@ -264,6 +264,8 @@ SIRError Circ::dreamcirc(double alpha,
       }
 
     }
+  } else {
+    err = D[0].err;
   }
 
   // Free memory.
diff --git a/src/dreamcirc_f.cc b/src/dreamcirc_f.cc
index e4eb3a4..15f0bc2 100644
--- a/src/dreamcirc_f.cc
+++ b/src/dreamcirc_f.cc
@@ -265,6 +265,8 @@ SIRError Circ_f::dreamcirc_f(double alpha,
       }
 
     }
+  } else {
+    err = D[0].err;
   }
 
   // Free memory.
diff --git a/src/dreamcylind.cc b/src/dreamcylind.cc
index 8939e15..60593d8 100644
--- a/src/dreamcylind.cc
+++ b/src/dreamcylind.cc
@@ -262,6 +262,8 @@ SIRError Cylind::dreamcylind(double alpha,
       }
 
     }
+  } else {
+    err = D[0].err;
   }
 
   // Free memory.
diff --git a/src/dreamline.cc b/src/dreamline.cc
index 3033813..cdcb7f3 100644
--- a/src/dreamline.cc
+++ b/src/dreamline.cc
@@ -249,6 +249,8 @@ SIRError Line::dreamline(double alpha,
       }
 
     }
+  } else {
+    err = D[0].err;
   }
 
   // Free memory.
diff --git a/src/dreamrect.cc b/src/dreamrect.cc
index bd00da2..acfcd08 100644
--- a/src/dreamrect.cc
+++ b/src/dreamrect.cc
@@ -261,6 +261,8 @@ SIRError Rect::dreamrect(double alpha,
       }
 
     }
+  } else {
+    err = D[0].err;
   }
 
   // Free memory.
diff --git a/src/dreamrect_f.cc b/src/dreamrect_f.cc
index a7a5dbb..f37f081 100644
--- a/src/dreamrect_f.cc
+++ b/src/dreamrect_f.cc
@@ -265,6 +265,8 @@ SIRError Rect_f::dreamrect_f(double alpha,
       }
 
     }
+  } else {
+    err = D[0].err;
   }
 
   // Free memory.
diff --git a/src/dreamsphere.cc b/src/dreamsphere.cc
index dc44852..61c95ed 100644
--- a/src/dreamsphere.cc
+++ b/src/dreamsphere.cc
@@ -260,6 +260,8 @@ SIRError Sphere::dreamsphere(double alpha,
       }
 
     }
+  } else {
+    err = D[0].err;
   }
 
   // Free memory.
-- 
2.43.0


From 27716ba477e2e11f3dc3866dd292df0d26306e21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:12 +0000
Subject: [PATCH 02/36] fix: dreamsphere: do not drop the warn/ignore
 out-of-bounds status of the threads

---
 src/dreamsphere.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/dreamsphere.cc b/src/dreamsphere.cc
index 61c95ed..8f46546 100644
--- a/src/dreamsphere.cc
+++ b/src/dreamsphere.cc
@@ -254,9 +254,9 @@ SIRError Sphere::dreamsphere(double alpha,
     for (dream_idx_type thread_n = 0; thread_n < nthreads; thread_n++) {
       threads[thread_n].join();
 
-      // Check if the current thread or a previous had an out-of-bounds error.
-      if ( (err == SIRError::out_of_bounds) || (D[thread_n].err == SIRError::out_of_bounds) ) {
-        err = SIRError::out_of_bounds;
+      // Check if one of the threads had an out-of-bounds event.
+      if (D[thread_n].err != SIRError::none) {
+        err = D[thread_n].err;
       }
 
     }
-- 
2.43.0


From daac28cc40f6d130737e1b92e7d496b5449a17b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:54 +0000
Subject: [PATCH 03/36] fix: array responses: keep the out-of-bounds status of
 every element, not only the last one

---
 src/dream_arr_annu.cc   | 14 ++++++++++++--
 src/dream_arr_circ.cc   | 14 ++++++++++++--
 src/dream_arr_cylind.cc | 14 ++++++++++++--
 src/dream_arr_rect.cc   | 14 ++++++++++++--
 4 files changed, 48 insertions(+), 8 deletions(-)

diff --git a/src/dream_arr_annu.cc b/src/dream_arr_annu.cc
index 23347a4..18cfac5 100644
--- a/src/dream_arr_annu.cc
+++ b/src/dream_arr_annu.cc
@@ -194,6 +194,7 @@ SIRError ArrAnnu::dream_arr_annu_serial(double xo, double yo, double zo,
                                         double *h, ErrorLevel err_level)
 {
   SIRError err = SIRError::none;
+  SIRError out_err = SIRError::none; // Status of all elements.
   verbose_err_messages = false;
 
   // NB. The first ring have no inner radius (it is a normal
@@ -234,6 +235,10 @@ SIRError ArrAnnu::dream_arr_annu_serial(double xo, double yo, double zo,
                              delay,
                              v, cp, &h_disc[n*nt], err_level);
 
+      if (err != SIRError::none) {
+        out_err = err;
+      }
+
       if (err == SIRError::out_of_bounds) {
         return err; // Bail out.
       }
@@ -265,7 +270,7 @@ SIRError ArrAnnu::dream_arr_annu_serial(double xo, double yo, double zo,
     superpos_annular(h_ring.get(), h, nt, weight, foc_delay, n, dt); // Add the n:th impulse response.
   }
 
-  return err;
+  return out_err;
 }
 
 SIRError ArrAnnu::dream_arr_annu_serial(Attenuation &att, FFTCVec &xc_vec, FFTVec &x_vec,
@@ -280,6 +285,7 @@ SIRError ArrAnnu::dream_arr_annu_serial(Attenuation &att, FFTCVec &xc_vec, FFTVe
                                         double *h, ErrorLevel err_level)
 {
   SIRError err = SIRError::none;
+  SIRError out_err = SIRError::none; // Status of all elements.
 
   // NB. The first ring have no inner radius (it is a normal
   // circular disc).
@@ -318,6 +324,10 @@ SIRError ArrAnnu::dream_arr_annu_serial(Attenuation &att, FFTCVec &xc_vec, FFTVe
                              delay,
                              v, cp, &h_disc[n*nt], err_level);
 
+      if (err != SIRError::none) {
+        out_err = err;
+      }
+
       if (err == SIRError::out_of_bounds) {
         return err; // Bail out.
       }
@@ -349,7 +359,7 @@ SIRError ArrAnnu::dream_arr_annu_serial(Attenuation &att, FFTCVec &xc_vec, FFTVe
     superpos_annular(h_ring.get(), h, nt, weight, foc_delay, n, dt); // Add the n:th impulse response.
   }
 
-  return err;
+  return out_err;
 }
 
 /***
diff --git a/src/dream_arr_circ.cc b/src/dream_arr_circ.cc
index ae91b5b..4c867dc 100644
--- a/src/dream_arr_circ.cc
+++ b/src/dream_arr_circ.cc
@@ -200,6 +200,7 @@ SIRError ArrCirc::dream_arr_circ_serial(double xo, double yo, double zo,
                                         ApodMet apod_met, double apod_par, double *h, ErrorLevel err_level)
 {
   SIRError err = SIRError::none;
+  SIRError out_err = SIRError::none; // Status of all elements.
   verbose_err_messages = false;
 
   double r_max, x_max, y_max;
@@ -232,13 +233,17 @@ SIRError ArrCirc::dream_arr_circ_serial(double xo, double yo, double zo,
                            err_level,
                            weight);
 
+    if (err != SIRError::none) {
+      out_err = err;
+    }
+
     if (err == SIRError::out_of_bounds) {
       return err; // Bail out.
     }
 
   }
 
-  return err;
+  return out_err;
 }
 
 SIRError ArrCirc::dream_arr_circ_serial(Attenuation &att, FFTCVec &xc_vec, FFTVec &x_vec,
@@ -253,6 +258,7 @@ SIRError ArrCirc::dream_arr_circ_serial(Attenuation &att, FFTCVec &xc_vec, FFTVe
                                         ApodMet apod_met, double apod_par, double *h, ErrorLevel err_level)
 {
   SIRError err = SIRError::none;
+  SIRError out_err = SIRError::none; // Status of all elements.
 
   // FIXME: Do we need this one?
   for (dream_idx_type i=0; i<nt; i++) {
@@ -289,13 +295,17 @@ SIRError ArrCirc::dream_arr_circ_serial(Attenuation &att, FFTCVec &xc_vec, FFTVe
                            h,
                            err_level,
                            weight);
+    if (err != SIRError::none) {
+      out_err = err;
+    }
+
     if (err == SIRError::out_of_bounds) {
       return err; // Bail out.
     }
 
   }
 
-  return err;
+  return out_err;
 }
 
 /***
diff --git a/src/dream_arr_cylind.cc b/src/dream_arr_cylind.cc
index 88a4251..d30ec3e 100644
--- a/src/dream_arr_cylind.cc
+++ b/src/dream_arr_cylind.cc
@@ -209,6 +209,7 @@ SIRError ArrCylind::dream_arr_cylind_serial(Cylind &cylind,
                                             double *h, ErrorLevel err_level)
 {
   SIRError err = SIRError::none;
+  SIRError out_err = SIRError::none; // Status of all elements.
   verbose_err_messages = false;
 
   double r_max, x_max, y_max;
@@ -240,13 +241,17 @@ SIRError ArrCylind::dream_arr_cylind_serial(Cylind &cylind,
                              h,
                              err_level,
                              weight);
+    if (err != SIRError::none) {
+      out_err = err;
+    }
+
     if (err == SIRError::out_of_bounds) {
       return err; // Bail out.
     }
 
   }
 
-  return err;
+  return out_err;
 }
 
 SIRError ArrCylind::dream_arr_cylind_serial(Cylind &cylind,
@@ -263,6 +268,7 @@ SIRError ArrCylind::dream_arr_cylind_serial(Cylind &cylind,
                                             double *h, ErrorLevel err_level)
 {
   SIRError err = SIRError::none;
+  SIRError out_err = SIRError::none; // Status of all elements.
 
   double r_max, x_max, y_max;
   max_dim_arr(&x_max, &y_max, &r_max, gx, gy, gz, num_elements);
@@ -295,13 +301,17 @@ SIRError ArrCylind::dream_arr_cylind_serial(Cylind &cylind,
                              err_level,
                              weight);
 
+    if (err != SIRError::none) {
+      out_err = err;
+    }
+
     if (err == SIRError::out_of_bounds) {
       return err; // Bail out.
     }
 
   }
 
-  return err;
+  return out_err;
 }
 
 /***
diff --git a/src/dream_arr_rect.cc b/src/dream_arr_rect.cc
index 78e53af..8b45cc8 100644
--- a/src/dream_arr_rect.cc
+++ b/src/dream_arr_rect.cc
@@ -201,6 +201,7 @@ SIRError ArrRect::dream_arr_rect_serial(double xo, double yo, double zo,
                                         double *h, ErrorLevel err_level)
 {
   SIRError err = SIRError::none;
+  SIRError out_err = SIRError::none; // Status of all elements.
   verbose_err_messages = false;
 
   double r_max, x_max, y_max;
@@ -234,13 +235,17 @@ SIRError ArrRect::dream_arr_rect_serial(double xo, double yo, double zo,
                            weight);
 
 
+    if (err != SIRError::none) {
+      out_err = err;
+    }
+
     if (err == SIRError::out_of_bounds) {
       return err; // Bail out.
     }
 
   }
 
-  return err;
+  return out_err;
 }
 
 SIRError ArrRect::dream_arr_rect_serial(Attenuation &att, FFTCVec &xc_vec, FFTVec &x_vec,
@@ -255,6 +260,7 @@ SIRError ArrRect::dream_arr_rect_serial(Attenuation &att, FFTCVec &xc_vec, FFTVe
                                         double *h, ErrorLevel err_level)
 {
   SIRError err = SIRError::none;
+  SIRError out_err = SIRError::none; // Status of all elements.
 
   // FIXME: Do we need this one?
   for (dream_idx_type i=0; i<nt; i++) {
@@ -292,13 +298,17 @@ SIRError ArrRect::dream_arr_rect_serial(Attenuation &att, FFTCVec &xc_vec, FFTVe
                            err_level,
                            weight);
 
+    if (err != SIRError::none) {
+      out_err = err;
+    }
+
     if (err == SIRError::out_of_bounds) {
       return err; // Bail out.
     }
 
   }
 
-  return err;
+  return out_err;
 }
 
 /***
-- 
2.43.0


From a931cb3691b522d0d2e575b31f05ed4123ffafd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:27 +0000
Subject: [PATCH 04/36] fix: dream_arr_annu: do not write before the buffer for
 negative (user defined) focusing delays

---
 src/dream_arr_annu.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dream_arr_annu.cc b/src/dream_arr_annu.cc
index 18cfac5..82f71eb 100644
--- a/src/dream_arr_annu.cc
+++ b/src/dream_arr_annu.cc
@@ -477,7 +477,7 @@ void ArrAnnu::superpos_annular(double *h_ring, double *h, dream_idx_type nt,
 
   dream_idx_type delay_idx = (dream_idx_type) std::rint(foc_delay/dt) + 1;
   for (dream_idx_type i=0; i<nt; i++) { // FIXME: can delay_idx be > nt?
-    if (delay_idx < nt) {
+    if (delay_idx < nt && i + delay_idx >= 0) { // NB. User defined delays can be negative.
       buf[i + delay_idx] = h_ring[i + n*nt];
     }
   }
-- 
2.43.0


From 51407b6cf0d436f3809fdc94d6f216a59a7d6aad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:27 +0000
Subject: [PATCH 05/36] fix: dream_arr_annu: apply the documented hann and
 hamming apodization windows

---
 src/dream_arr_annu.cc | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/dream_arr_annu.cc b/src/dream_arr_annu.cc
index 82f71eb..55737c1 100644
--- a/src/dream_arr_annu.cc
+++ b/src/dream_arr_annu.cc
@@ -443,6 +443,17 @@ double ArrAnnu::apodization_annular(ApodMet apod_met, dream_idx_type n, double *
     weight = apod_par + std::cos(ring_r * M_PI / ring_r_max);
     break;
 
+  case ApodMet::hann:
+    weight = 0.5 * (1.0 - std::cos((ring_r+ring_r_max)*M_PI/ring_r_max));
+    break;
+
+  case ApodMet::hamming:
+    {
+      double a0 = 25.0/46.0;
+      weight = a0 - (1.0 - a0) * std::cos((ring_r+ring_r_max)*M_PI/ring_r_max);
+    }
+    break;
+
   case ApodMet::simply_supported:
     weight = 1.0 - ring_r*ring_r / (ring_r_max*ring_r_max);
     break;
-- 
2.43.0


From 71713adb5c1c8d85fb9bdc24a6a164e96022d28b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:51 +0000
Subject: [PATCH 06/36] fix: das (rca): take the element (stripe) extents from
 the edge rows/columns, also when num_rows != num_cols

---
 extra_src/das.cc     | 16 ++++++++--------
 opencl/das_double.cl | 12 ++++++------
 opencl/das_float.cl  | 12 ++++++------
 3 files changed, 20 insertions(+), 20 deletions(-)

diff --git a/extra_src/das.cc b/extra_src/das.cc
index d395e84..4e3e564 100644
--- a/extra_src/das.cc
+++ b/extra_src/das.cc
@@ -459,14 +459,14 @@ SIRError DAS<T>::das_rca_serial_coltx(const T *Y, // Size: a_scan_len x num_cols
   // * the transmit elements are distributed along the x-dimension (transmit with columns)
   //   and the receive elements are distributed along the y-dimension (rows),
   // * G_col[0] < G_col[num_cols-1] (x-dim edge positions) and
-  //   G_row[0 + 1*num_cols] < G_col[num_cols-1 + 1*num_cols]
+  //   G_row[0 + 1*num_rows] < G_row[num_rows-1 + 1*num_rows]
   //   (y-dim edge positions).
 
   // Element (stripe) lengths
-  T gc_y_min = G_row[0 + 1*num_cols];
-  T gc_y_max = G_row[num_cols-1 + 1*num_cols];
+  T gc_y_min = G_row[0 + 1*num_rows];
+  T gc_y_max = G_row[num_rows-1 + 1*num_rows];
   T gr_x_min = G_col[0];
-  T gr_x_max = G_col[num_rows-1];
+  T gr_x_max = G_col[num_cols-1];
 
   im = 0.0;
   const T *y_p = Y;
@@ -555,14 +555,14 @@ SIRError DAS<T>::das_rca_serial_rowtx(const T *Y, // Size: a_scan_len x num_cols
   // * the transmit elements are distributed along the y-dimension (transmit with rows)
   //   and the receive elements are distributed along the x-dimension (cols),
   // * G_col[0] < G_col[num_cols-1] (x-dim edge positions) and
-  //   G_row[0 + 1*num_cols] < G_col[num_cols-1 + 1*num_cols]
+  //   G_row[0 + 1*num_rows] < G_row[num_rows-1 + 1*num_rows]
   //   (y-dim edge positions).
 
   // Element (stripe) lengths
-  T gc_y_min = G_row[0 + 1*num_cols];
-  T gc_y_max = G_row[num_cols-1 + 1*num_cols];
+  T gc_y_min = G_row[0 + 1*num_rows];
+  T gc_y_max = G_row[num_rows-1 + 1*num_rows];
   T gr_x_min = G_col[0];
-  T gr_x_max = G_col[num_rows-1];
+  T gr_x_max = G_col[num_cols-1];
 
   im = 0.0;
   const T *y_p = Y;
diff --git a/opencl/das_double.cl b/opencl/das_double.cl
index 825ebf4..b7daf59 100644
--- a/opencl/das_double.cl
+++ b/opencl/das_double.cl
@@ -127,10 +127,10 @@ __kernel void das_rca_coltx(__global const DAS_DATATYPE *Y, // Size: a_scan_len
   const DAS_DATATYPE delay_ms = (DAS_DATATYPE) delay/1000.0;
 
   // Element (stripe) lengths
-  const DAS_DATATYPE gc_y_min = G_row[0 + 1*num_cols];
-  const DAS_DATATYPE gc_y_max = G_row[num_cols-1 + 1*num_cols];
+  const DAS_DATATYPE gc_y_min = G_row[0 + 1*num_rows];
+  const DAS_DATATYPE gc_y_max = G_row[num_rows-1 + 1*num_rows];
   const DAS_DATATYPE gr_x_min = G_col[0];
-  const DAS_DATATYPE gr_x_max = G_col[num_rows-1];
+  const DAS_DATATYPE gr_x_max = G_col[num_cols-1];
 
   // Work on local data.
   DAS_DATATYPE im = 0.0;
@@ -207,10 +207,10 @@ __kernel void das_rca_rowtx(__global const DAS_DATATYPE *Y, // Size: a_scan_len
   const DAS_DATATYPE delay_ms = (DAS_DATATYPE) delay/1000.0;
 
   // Element (stripe) lengths
-  const DAS_DATATYPE gc_y_min = G_row[0 + 1*num_cols];
-  const DAS_DATATYPE gc_y_max = G_row[num_cols-1 + 1*num_cols];
+  const DAS_DATATYPE gc_y_min = G_row[0 + 1*num_rows];
+  const DAS_DATATYPE gc_y_max = G_row[num_rows-1 + 1*num_rows];
   const DAS_DATATYPE gr_x_min = G_col[0];
-  const DAS_DATATYPE gr_x_max = G_col[num_rows-1];
+  const DAS_DATATYPE gr_x_max = G_col[num_cols-1];
 
   // Work on local data.
   DAS_DATATYPE im = 0.0;
diff --git a/opencl/das_float.cl b/opencl/das_float.cl
index c525101..3fc582c 100644
--- a/opencl/das_float.cl
+++ b/opencl/das_float.cl
@@ -128,10 +128,10 @@ __kernel void das_rca_coltx(__global const DAS_DATATYPE *Y, // Size: a_scan_len
   const DAS_DATATYPE delay_ms = (DAS_DATATYPE) delay/1000.0;
 
   // Element (stripe) lengths
-  const DAS_DATATYPE gc_y_min = G_row[0 + 1*num_cols];
-  const DAS_DATATYPE gc_y_max = G_row[num_cols-1 + 1*num_cols];
+  const DAS_DATATYPE gc_y_min = G_row[0 + 1*num_rows];
+  const DAS_DATATYPE gc_y_max = G_row[num_rows-1 + 1*num_rows];
   const DAS_DATATYPE gr_x_min = G_col[0];
-  const DAS_DATATYPE gr_x_max = G_col[num_rows-1];
+  const DAS_DATATYPE gr_x_max = G_col[num_cols-1];
 
   // Work on local data.
   DAS_DATATYPE im = F_SFX(0.0);
@@ -208,10 +208,10 @@ __kernel void das_rca_rowtx(__global const DAS_DATATYPE *Y, // Size: a_scan_len
   const DAS_DATATYPE delay_ms = (DAS_DATATYPE) delay/1000.0;
 
   // Element (stripe) lengths
-  const DAS_DATATYPE gc_y_min = G_row[0 + 1*num_cols];
-  const DAS_DATATYPE gc_y_max = G_row[num_cols-1 + 1*num_cols];
+  const DAS_DATATYPE gc_y_min = G_row[0 + 1*num_rows];
+  const DAS_DATATYPE gc_y_max = G_row[num_rows-1 + 1*num_rows];
   const DAS_DATATYPE gr_x_min = G_col[0];
-  const DAS_DATATYPE gr_x_max = G_col[num_rows-1];
+  const DAS_DATATYPE gr_x_max = G_col[num_cols-1];
 
   // Work on local data.
   DAS_DATATYPE im = F_SFX(0.0);
-- 
2.43.0


From 063d7732d86ff1444ac46924d04a5598013f5783 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 00:58:46 +0000
Subject: [PATCH 07/36] fix: check_delay: reject an empty delay argument

---
 include/arg_parser.h        | 2 +-
 include/arg_parser_python.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/arg_parser.h b/include/arg_parser.h
index d750ba6..664e612 100644
--- a/include/arg_parser.h
+++ b/include/arg_parser.h
@@ -238,7 +238,7 @@ public:
     std::ostringstream s;
 
     dream_idx_type delay_len = get_m(args, arg_num)*get_n(args, arg_num);
-    if ( (delay_len > 1) && (delay_len != No) ) { // delay is a vector
+    if ( (delay_len != 1) && (delay_len != No) ) { // delay is a vector
 
       if (!((get_m(args, arg_num)==delay_len && get_n(args, arg_num)==1) || (get_m(args, arg_num)==1 && get_n(args, arg_num)==delay_len))) {
         s << func_name <<  " requires that arg " << arg_num+1 << " (delay) must be a " << delay_len << " element vector";
diff --git a/include/arg_parser_python.h b/include/arg_parser_python.h
index 57bac5d..8faa59c 100644
--- a/include/arg_parser_python.h
+++ b/include/arg_parser_python.h
@@ -259,7 +259,7 @@ public:
     std::ostringstream s;
 
     dream_idx_type delay_len = get_m(py_focal)*get_n(py_focal);
-    if ( (delay_len > 1) && (delay_len != No) ) { // delay is a vector
+    if ( (delay_len != 1) && (delay_len != No) ) { // delay is a vector
 
       if (!((get_m(py_focal) == delay_len && get_n(py_focal) == 1) ||
             (get_m(py_focal) == 1 && get_n(py_focal) == delay_len))) {
-- 
2.43.0


From 7f82688bfbeab3268cc37452065686823983b85f Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 00:58:46 +0000
Subject: [PATCH 08/36] fix: python: use the win_par argument of the array
 functions

---
 python/src/py_dream_arr_annu.cc   | 2 +-
 python/src/py_dream_arr_circ.cc   | 2 +-
 python/src/py_dream_arr_cylind.cc | 2 +-
 python/src/py_dream_arr_rect.cc   | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/python/src/py_dream_arr_annu.cc b/python/src/py_dream_arr_annu.cc
index cfaefdc..1886671 100644
--- a/python/src/py_dream_arr_annu.cc
+++ b/python/src/py_dream_arr_annu.cc
@@ -140,7 +140,7 @@ py::array_t<double,py::array::f_style> py_dream_arr_annu(py::array_t<double,py::
   // Allocate space for the user defined apodization weights
   std::unique_ptr<double[]> apod = std::make_unique<double[]>(num_elements);
 
-  double apod_par=0.0;
+  double apod_par=win_par;
   if (!ap.parse_apod_args("dream_arr_annu", apod_str, py_apod, num_elements,
                           do_apod, apod.get(), apod_met, apod_par)) {
     throw std::runtime_error("Error in dream_arr_annu!");
diff --git a/python/src/py_dream_arr_circ.cc b/python/src/py_dream_arr_circ.cc
index e3b2efc..60b3b29 100644
--- a/python/src/py_dream_arr_circ.cc
+++ b/python/src/py_dream_arr_circ.cc
@@ -164,7 +164,7 @@ py::array_t<double,py::array::f_style> py_dream_arr_circ(py::array_t<double,py::
   // Allocate space for the user defined apodization weights
   std::unique_ptr<double[]> apod = std::make_unique<double[]>(num_elements);
 
-  double apod_par=0.0;
+  double apod_par=win_par;
   if (!ap.parse_apod_args("dream_arr_circ", apod_str, py_apod, num_elements,
                           do_apod, apod.get(), apod_met, apod_par)) {
     throw std::runtime_error("Error in dream_arr_circ!");
diff --git a/python/src/py_dream_arr_cylind.cc b/python/src/py_dream_arr_cylind.cc
index 1a72585..e407793 100644
--- a/python/src/py_dream_arr_cylind.cc
+++ b/python/src/py_dream_arr_cylind.cc
@@ -164,7 +164,7 @@ py::array_t<double,py::array::f_style> py_dream_arr_cylind(py::array_t<double,py
   // Allocate space for the user defined apodization weights
   std::unique_ptr<double[]> apod = std::make_unique<double[]>(num_elements);
 
-  double apod_par=0.0;
+  double apod_par=win_par;
   if (!ap.parse_apod_args("dream_arr_cylind", apod_str, py_apod, num_elements,
                           do_apod, apod.get(), apod_met, apod_par)) {
     throw std::runtime_error("Error in dream_arr_cylind!");
diff --git a/python/src/py_dream_arr_rect.cc b/python/src/py_dream_arr_rect.cc
index 4d4aac3..ae3fd74 100644
--- a/python/src/py_dream_arr_rect.cc
+++ b/python/src/py_dream_arr_rect.cc
@@ -164,7 +164,7 @@ py::array_t<double,py::array::f_style> py_dream_arr_rect(py::array_t<double,py::
   // Allocate space for the user defined apodization weights
   std::unique_ptr<double[]> apod = std::make_unique<double[]>(num_elements);
 
-  double apod_par=0.0;
+  double apod_par=win_par;
   if (!ap.parse_apod_args("dream_arr_rect", apod_str, py_apod, num_elements,
                           do_apod, apod.get(), apod_met, apod_par)) {
     throw std::runtime_error("Error in dream_arr_rect!");
-- 
2.43.0


From bf59ac6231a9df0b914c7d731379bb3fda483fa6 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 00:59:54 +0000
Subject: [PATCH 09/36] fix: check_array_annu: require a vector with an odd
 number of radii

---
 include/arg_parser.h        | 2 +-
 include/arg_parser_python.h | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/arg_parser.h b/include/arg_parser.h
index 664e612..74a864c 100644
--- a/include/arg_parser.h
+++ b/include/arg_parser.h
@@ -109,7 +109,7 @@ public:
   bool check_array_annu(const char *func_name, args_t args, dream_idx_type arg_num) {
     bool retval=true;
     std::ostringstream s;
-    if ( (get_m(args, arg_num) != 1) && (get_n(args, arg_num) != 1) && (get_n(args, arg_num)*get_n(args, arg_num) % 2 == 0) ) {
+    if ( ((get_m(args, arg_num) != 1) && (get_n(args, arg_num) != 1)) || (get_m(args, arg_num)*get_n(args, arg_num) % 2 == 0) ) {
       s << func_name <<  " requires that arg " << arg_num+1 << "  must be a (number of radii) vector with an odd number of elements!";
       dream_err_msg(s.str().c_str());
       retval=false;
diff --git a/include/arg_parser_python.h b/include/arg_parser_python.h
index 8faa59c..25080ba 100644
--- a/include/arg_parser_python.h
+++ b/include/arg_parser_python.h
@@ -116,8 +116,8 @@ public:
     bool retval=true;
     std::ostringstream s;
 
-    if ( (get_m(py_G) != 1) && (get_n(py_G) != 1) &&
-         (get_n(py_G)*get_n(py_G) % 2 == 0) ) {
+    if ( ((get_m(py_G) != 1) && (get_n(py_G) != 1)) ||
+         (get_m(py_G)*get_n(py_G) % 2 == 0) ) {
       s << func_name <<  " requires that array grid arg must be a (number of radii) vector with an odd number of elements!";
       dream_err_msg(s.str().c_str());
       retval=false;
-- 
2.43.0


From 44f37044eaa0ebba59e1f4ac4adbae435ecb9b79 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 00:59:54 +0000
Subject: [PATCH 10/36] fix: python: dream_arr_annu: row vectors of radii; one
 ud focusing delay and apodization weight per ring

---
 python/src/py_dream_arr_annu.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/python/src/py_dream_arr_annu.cc b/python/src/py_dream_arr_annu.cc
index 1886671..f24d05d 100644
--- a/python/src/py_dream_arr_annu.cc
+++ b/python/src/py_dream_arr_annu.cc
@@ -75,10 +75,10 @@ py::array_t<double,py::array::f_style> py_dream_arr_annu(py::array_t<double,py::
   }
 
   py::buffer_info G_info = py_G->request();
-  auto G_m = G_info.shape[0];
   double *G = static_cast<double*>(G_info.ptr);
 
-  dream_idx_type num_elements = (dream_idx_type) G_m;
+  dream_idx_type num_radii = ap.get_len(py_G);
+  dream_idx_type num_elements = (num_radii+1)/2; // The number of rings.
 
   //
   // Temporal and spatial sampling parameters.
@@ -178,7 +178,7 @@ py::array_t<double,py::array::f_style> py_dream_arr_annu(py::array_t<double,py::
                                         dx, dy,  dt, nt,
                                         delay_type, delay,
                                         v, cp,
-                                        num_elements, G,
+                                        num_radii, G,
                                         foc_met, focal.get(),
                                         apod.get(), do_apod, apod_met, apod_par,
                                         h, err_level);
-- 
2.43.0


From 778f513d279d7d9fd82bc573f4a3b2cada7cd09a Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 01:01:28 +0000
Subject: [PATCH 11/36] fix: python: das: reject unknown compute device strings

---
 python/include/py_das.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/include/py_das.hpp b/python/include/py_das.hpp
index 7b7d5e5..f4d2dc8 100644
--- a/python/include/py_das.hpp
+++ b/python/include/py_das.hpp
@@ -143,7 +143,7 @@ py::array_t<T,py::array::f_style> py_das(py::array_t<T,py::array::f_style> *py_Y
   // Compute device
   //
 
-  if (device_str != "cpu" && device_str == "gpu") {
+  if (device_str != "cpu" && device_str != "gpu") {
     throw std::runtime_error("Error in das - unkown compute device string!");
   }
 
-- 
2.43.0


From 3a37ac8458f7ab2d99a1954d5207fc6571a2ba2a Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 01:01:42 +0000
Subject: [PATCH 12/36] fix: das: reject data with fewer A-scans than
 transmit/receive elements

---
 extra_src/oct_das.cc      | 6 ++++++
 python/include/py_das.hpp | 5 +++++
 2 files changed, 11 insertions(+)

diff --git a/extra_src/oct_das.cc b/extra_src/oct_das.cc
index 1c4c660..2efe7e9 100644
--- a/extra_src/oct_das.cc
+++ b/extra_src/oct_das.cc
@@ -363,6 +363,12 @@ Copyright @copyright{} 2008-2025 Fredrik Lingvall.\n\
     return oct_retval;
   }
 
+  // One A-scan per transmit (and, if not SAFT, receive) element.
+  if (mxGetN(0) < num_t_elements * ((das_type != DASType::saft && num_r_elements > 0) ? num_r_elements : 1)) {
+    error("Argument 1 must have (at least) one A-scan (column) per transmit/receive element!");
+    return oct_retval;
+  }
+
   //
   // Error reporting.
   //
diff --git a/python/include/py_das.hpp b/python/include/py_das.hpp
index f4d2dc8..e03ad3c 100644
--- a/python/include/py_das.hpp
+++ b/python/include/py_das.hpp
@@ -91,6 +91,11 @@ py::array_t<T,py::array::f_style> py_das(py::array_t<T,py::array::f_style> *py_Y
     Gr = static_cast<T*>(ap.get_data(py_Gr));
   }
 
+  // One A-scan per transmit (and receive) element.
+  if (ap.get_n(py_Y) < num_t_elements * (num_r_elements > 0 ? num_r_elements : 1)) {
+    throw std::runtime_error("Argument 1 must have (at least) one A-scan (column) per transmit/receive element!");
+  }
+
   //
   // Observation point.
   //
-- 
2.43.0


From 1c55fa278f764a34a5be78c8f7308fa3016b1d7c Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 01:01:42 +0000
Subject: [PATCH 13/36] fix: python: das: the verbose argument (misspelled
 keyword) is optional

---
 python/src/py_das.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/src/py_das.cc b/python/src/py_das.cc
index 3c23496..b2b6f5c 100644
--- a/python/src/py_das.cc
+++ b/python/src/py_das.cc
@@ -58,7 +58,7 @@ Copyright 2006-2025 Fredrik Lingvall.";
         py::arg("method"),
         py::arg("err_level"),
         py::arg("device"),
-        py::arg("verbose"));
+        py::arg("verbose")="");
 }
 
 #else
@@ -84,6 +84,6 @@ Copyright 2006-2025 Fredrik Lingvall.";
         py::arg("method"),
         py::arg("err_level"),
         py::arg("device"),
-        py::arg("vebose"));
+        py::arg("verbose")="");
 }
 #endif
-- 
2.43.0


From ef99ba060c960c9b692ddc8725591c8fb1fe81a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:46 +0000
Subject: [PATCH 14/36] fix: octave: ArgParser: keep the converted argument
 alive while it is read

---
 include/arg_parser.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/arg_parser.h b/include/arg_parser.h
index 74a864c..d8822de 100644
--- a/include/arg_parser.h
+++ b/include/arg_parser.h
@@ -604,8 +604,8 @@ public:
   };
 
   double* get_data(const args_t args, dream_idx_type arg_num) {
-    const Matrix tmp_mat = args(arg_num).matrix_value();
-    return (double*) tmp_mat.data();
+    m_mat = args(arg_num).matrix_value(); // Keep the data alive until the next call.
+    return (double*) m_mat.data();
   };
 
   double get_scalar(const args_t args, dream_idx_type arg_num) {
@@ -620,6 +620,12 @@ public:
     return args(arg_num).string_value();
   };
 
+private:
+
+  Matrix m_mat;
+
+public:
+
 #endif
 
 #ifdef DREAM_MATLAB
-- 
2.43.0


From 840d2387110f128d1047cb760509d406fb25368e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:33 +0000
Subject: [PATCH 15/36] fix: rect_sir: distance of the fourth corner for points
 inside the aperture

---
 extra_src/rect_sir.cc | 2 +-
 opencl/rect_sir.cl    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/extra_src/rect_sir.cc b/extra_src/rect_sir.cc
index 5b78231..937e3d2 100644
--- a/extra_src/rect_sir.cc
+++ b/extra_src/rect_sir.cc
@@ -288,7 +288,7 @@ void RectSir::rect_sir_serial(double xo_i,
 
       case 4:
         s_k = fabs(a/2.0 - xo);
-        l_k = fabs(b/2.0 - yo);
+        l_k = fabs(yo + b/2.0);
         break;
 
       default:
diff --git a/opencl/rect_sir.cl b/opencl/rect_sir.cl
index 9428a22..fa79299 100644
--- a/opencl/rect_sir.cl
+++ b/opencl/rect_sir.cl
@@ -58,7 +58,7 @@ __kernel void rect_sir(__global const double *Ro,
 
       case 4:
         s_k = fabs(a/2.0 - xo);
-        l_k = fabs(b/2.0 - yo);
+        l_k = fabs(yo + b/2.0);
         break;
 
       default:
-- 
2.43.0


From 6a9eb11d03a985ad6e8f37a646407e1bdc53c1cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:59 +0000
Subject: [PATCH 16/36] fix: rect_sir: scale the response with the normal
 velocity v

---
 extra_src/rect_sir.cc | 2 +-
 opencl/rect_sir.cl    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/extra_src/rect_sir.cc b/extra_src/rect_sir.cc
index 937e3d2..411e15f 100644
--- a/extra_src/rect_sir.cc
+++ b/extra_src/rect_sir.cc
@@ -415,7 +415,7 @@ void RectSir::rect_sir_serial(double xo_i,
       if ( (t >= tau_3) && (t <= tau_4) )
         a_k -= cp/(2*M_PI) * std::acos( l_k / (cp * std::sqrt(t*t - t_z*t_z)));
 
-      h[it] += g_k * a_k;
+      h[it] += v * g_k * a_k;
 
     } // for it
   } // for k
diff --git a/opencl/rect_sir.cl b/opencl/rect_sir.cl
index fa79299..2353149 100644
--- a/opencl/rect_sir.cl
+++ b/opencl/rect_sir.cl
@@ -189,7 +189,7 @@ __kernel void rect_sir(__global const double *Ro,
       }
 
       if (a_k > 0.0) {
-        h[it] += g_k * a_k; // This hits global memory
+        h[it] += v * g_k * a_k; // This hits global memory
       }
 
     } // for it
-- 
2.43.0


From b5a469630a3fc01e05377f37717733a144cac539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:33 +0000
Subject: [PATCH 17/36] fix: octave: rect_sir: an interrupted run is an error

---
 extra_src/oct_rect_sir.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/extra_src/oct_rect_sir.cc b/extra_src/oct_rect_sir.cc
index 69ce2b6..9deeb70 100644
--- a/extra_src/oct_rect_sir.cc
+++ b/extra_src/oct_rect_sir.cc
@@ -247,7 +247,8 @@ Copyright @copyright{} 2008-2023 Fredrik Lingvall.\n\
                                        h);
 
     if (!rect_sir.is_running()) {
-      dream_err_msg("CTRL-C pressed!\n"); // Bail out.
+      error("CTRL-C pressed!\n"); // Bail out.
+      return oct_retval;
     }
 
     //
-- 
2.43.0


From f23b484b7cb64ca931153b970c11ba7324ad88e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:58 +0000
Subject: [PATCH 18/36] fix: octave: das: keep the converted arguments alive
 while they are used

---
 extra_src/oct_das.cc | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/extra_src/oct_das.cc b/extra_src/oct_das.cc
index 2efe7e9..a25d119 100644
--- a/extra_src/oct_das.cc
+++ b/extra_src/oct_das.cc
@@ -199,16 +199,20 @@ Copyright @copyright{} 2008-2025 Fredrik Lingvall.\n\
   // Data
   //
 
+  // The pointers below point into these (converted) matrices.
+  FloatMatrix tmp0f, tmp1f, tmp2f, tmp3f, tmp5f;
+  Matrix tmp0d, tmp1d, tmp2d, tmp3d, tmp5d;
+
   dream_idx_type a_scan_len = mxGetM(0); // A-scan length
 
   float *Yf = nullptr;
   double *Yd = nullptr;
 
   if (use_float) {
-    const FloatMatrix tmp0f= args(0).float_matrix_value();
+    tmp0f = args(0).float_matrix_value();
     Yf = (float*) tmp0f.data();
   } else {
-    const Matrix tmp0d = args(0).matrix_value();
+    tmp0d = args(0).matrix_value();
     Yd = (double*) tmp0d.data();
   }
 
@@ -227,10 +231,10 @@ Copyright @copyright{} 2008-2025 Fredrik Lingvall.\n\
   const double *Gt_d=nullptr;
 
   if (use_float) {
-    const FloatMatrix tmp1f = args(1).float_matrix_value();
+    tmp1f = args(1).float_matrix_value();
     Gt_f = tmp1f.data();
   } else {
-    const Matrix tmp1d = args(1).matrix_value();
+    tmp1d = args(1).matrix_value();
     Gt_d = tmp1d.data();
   }
 
@@ -252,10 +256,10 @@ Copyright @copyright{} 2008-2025 Fredrik Lingvall.\n\
     num_r_elements = mxGetM(2);
 
     if (use_float) {
-      const FloatMatrix tmp2f = args(2).float_matrix_value();
+      tmp2f = args(2).float_matrix_value();
       Gr_f = tmp2f.data();
     } else {
-      const Matrix tmp2d = args(2).matrix_value();
+      tmp2d = args(2).matrix_value();
       Gr_d = tmp2d.data();
     }
 
@@ -277,10 +281,10 @@ Copyright @copyright{} 2008-2025 Fredrik Lingvall.\n\
   const double *Ro_d = nullptr;
 
   if (use_float) {
-    const FloatMatrix tmp3f= args(3).float_matrix_value();
+    tmp3f = args(3).float_matrix_value();
     Ro_f = tmp3f.data();
   } else {
-    const Matrix tmp3d = args(3).matrix_value();
+    tmp3d = args(3).matrix_value();
     Ro_d = tmp3d.data();
   }
 
@@ -323,10 +327,10 @@ Copyright @copyright{} 2008-2025 Fredrik Lingvall.\n\
   const double *delay_d = nullptr;
 
   if (use_float) {
-    const FloatMatrix tmp5f = args(5).float_matrix_value();
+    tmp5f = args(5).float_matrix_value();
     delay_f = tmp5f.data();
   } else {
-    const Matrix tmp5d = args(5).matrix_value();
+    tmp5d = args(5).matrix_value();
     delay_d = tmp5d.data();
   }
 
-- 
2.43.0


From c596097250501a48af330b9650e53897862f5259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:58 +0000
Subject: [PATCH 19/36] fix: octave: das: set the run flag through the object
 in use (single precision)

---
 extra_src/oct_das.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/extra_src/oct_das.cc b/extra_src/oct_das.cc
index a25d119..e60b854 100644
--- a/extra_src/oct_das.cc
+++ b/extra_src/oct_das.cc
@@ -474,7 +474,7 @@ Copyright @copyright{} 2008-2025 Fredrik Lingvall.\n\
       }
     }
 
-    das_d->set_running();
+    das_f->set_running();
 
     // Register signal handler.
     std::signal(SIGABRT, DAS<float>::abort);
-- 
2.43.0


From d5950fe741cff6fc9f479d294ba26a3de6eb0d84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:58 +0000
Subject: [PATCH 20/36] fix: octave: das: do not ignore the device when the
 verbose argument is given

---
 extra_src/oct_das.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/extra_src/oct_das.cc b/extra_src/oct_das.cc
index e60b854..1218bd8 100644
--- a/extra_src/oct_das.cc
+++ b/extra_src/oct_das.cc
@@ -393,7 +393,7 @@ Copyright @copyright{} 2008-2025 Fredrik Lingvall.\n\
 
   std::string device;
 
-  if (nrhs == 10) {
+  if (nrhs >= 10) {
 
     if (!mxIsChar(9)) {
       error("Argument 10 must be a string");
-- 
2.43.0


From 5219ce55c24ce52259f36b8c0eaca73cc86ca336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:27 +0000
Subject: [PATCH 21/36] fix: ArgParser: an array has at least one element

---
 include/arg_parser.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/arg_parser.h b/include/arg_parser.h
index d8822de..329a95e 100644
--- a/include/arg_parser.h
+++ b/include/arg_parser.h
@@ -97,7 +97,7 @@ public:
   bool check_array(const char *func_name, args_t args, dream_idx_type arg_num) {
     bool retval=true;
     std::ostringstream s;
-    if ( get_n(args, arg_num) != 3 ) {
+    if ( get_n(args, arg_num) != 3 || get_m(args, arg_num) < 1 ) {
       s << func_name <<  " requires that arg " << arg_num+1 << "  must be a (number of array elements) x 3 matrix!";
       dream_err_msg(s.str().c_str());
       retval=false;
-- 
2.43.0


From 908d7f267bf58ad428c9e96bf8b078b072290631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:36 +0000
Subject: [PATCH 22/36] fix: das: at least one transmit element

---
 extra_src/oct_das.cc      | 2 +-
 python/include/py_das.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/extra_src/oct_das.cc b/extra_src/oct_das.cc
index 1218bd8..2caf6cf 100644
--- a/extra_src/oct_das.cc
+++ b/extra_src/oct_das.cc
@@ -220,7 +220,7 @@ Copyright @copyright{} 2008-2025 Fredrik Lingvall.\n\
   // Transmit array
   //
 
-  if (mxGetN(1) != 3) {
+  if (mxGetN(1) != 3 || mxGetM(1) < 1) {
     error("Argument 2 must be a (num transmit elements) x 3 matrix!");
     return oct_retval;
   }
diff --git a/python/include/py_das.hpp b/python/include/py_das.hpp
index e03ad3c..b59b8f4 100644
--- a/python/include/py_das.hpp
+++ b/python/include/py_das.hpp
@@ -58,7 +58,7 @@ py::array_t<T,py::array::f_style> py_das(py::array_t<T,py::array::f_style> *py_Y
   // Transmit array
   //
 
-  if (ap.get_n(py_Gt) != 3) {
+  if (ap.get_n(py_Gt) != 3 || ap.get_m(py_Gt) < 1) {
     throw std::runtime_error("Argument 2 must be a (num transmit elements) x 3 matrix!");
   }
 
-- 
2.43.0


From b99fb686cd1510e5d20c43618e7983fd4c003168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:06 +0000
Subject: [PATCH 23/36] fix: ArgParser (Python): an array has at least one
 element

---
 include/arg_parser_python.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/arg_parser_python.h b/include/arg_parser_python.h
index 25080ba..93c8f4b 100644
--- a/include/arg_parser_python.h
+++ b/include/arg_parser_python.h
@@ -103,7 +103,7 @@ public:
     py::buffer_info G_info = py_G->request();
     auto G_n = G_info.shape[1];
 
-    if ( G_n != 3 ) {
+    if ( G_n != 3 || G_info.shape[0] < 1 ) {
       s << func_name <<  " requires that array grid arg must be a (number of array elements) x 3 matrix!";
       dream_err_msg(s.str().c_str());
       retval=false;
-- 
2.43.0


From adb535c7e93143aee0836b18095a157abc74938d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:33 +0000
Subject: [PATCH 24/36] fix: octave: copy_p, add_p: check the first index and
 the order of the indices

---
 extra_src/oct_add_p.cc  | 8 ++++----
 extra_src/oct_copy_p.cc | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/extra_src/oct_add_p.cc b/extra_src/oct_add_p.cc
index c240ce9..8afd3c8 100644
--- a/extra_src/oct_add_p.cc
+++ b/extra_src/oct_add_p.cc
@@ -211,8 +211,8 @@ Addright @addright{} 2006-2023 Fredrik Lingvall.\n\
     return oct_retval;
   }
 
-  if ( (octave_idx_type) r[1] < 1) {
-    error("1st element of argument 2 must be > 1!");
+  if ( (octave_idx_type) r[0] < 1 || r[1] < r[0]) {
+    error("1st element of argument 2 must be > 0 and not larger than the 2nd!");
     return oct_retval;
   }
 
@@ -227,8 +227,8 @@ Addright @addright{} 2006-2023 Fredrik Lingvall.\n\
     return oct_retval;
   }
 
-  if ( (octave_idx_type) k[1] < 1) {
-    error("1st element of argument 3 must be > 1!");
+  if ( (octave_idx_type) k[0] < 1 || k[1] < k[0]) {
+    error("1st element of argument 3 must be > 0 and not larger than the 2nd!");
     return oct_retval;
   }
 
diff --git a/extra_src/oct_copy_p.cc b/extra_src/oct_copy_p.cc
index 5f24b9a..b1673b4 100644
--- a/extra_src/oct_copy_p.cc
+++ b/extra_src/oct_copy_p.cc
@@ -209,8 +209,8 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
     return oct_retval;
   }
 
-  if ( (octave_idx_type) r[1] < 1) {
-    error("1st element of argument 2 must be > 1!");
+  if ( (octave_idx_type) r[0] < 1 || r[1] < r[0]) {
+    error("1st element of argument 2 must be > 0 and not larger than the 2nd!");
     return oct_retval;
   }
 
@@ -225,8 +225,8 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
     return oct_retval;
   }
 
-  if ( (octave_idx_type) k[1] < 1) {
-    error("1st element of argument 3 must be > 1!");
+  if ( (octave_idx_type) k[0] < 1 || k[1] < k[0]) {
+    error("1st element of argument 3 must be > 0 and not larger than the 2nd!");
     return oct_retval;
   }
 
-- 
2.43.0


From cf27412e9f9871a69988bc9b553a8d994cd0c92d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:33 +0000
Subject: [PATCH 25/36] fix: octave: copy_p, add_p: process the columns of B,
 not as many as A has

---
 extra_src/oct_add_p.cc  | 10 +++++-----
 extra_src/oct_copy_p.cc | 10 +++++-----
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/extra_src/oct_add_p.cc b/extra_src/oct_add_p.cc
index 8afd3c8..49dc3d0 100644
--- a/extra_src/oct_add_p.cc
+++ b/extra_src/oct_add_p.cc
@@ -264,9 +264,9 @@ Addright @addright{} 2006-2023 Fredrik Lingvall.\n\
     }
   }
 
-  // nthreads can't be larger then the number of columns in the A matrix.
-  if (nthreads > A_N) {
-    nthreads = A_N;
+  // nthreads can't be larger then the number of columns in the B matrix.
+  if (nthreads > B_N) {
+    nthreads = B_N;
   }
 
   if (nthreads < 1) {
@@ -311,8 +311,8 @@ Addright @addright{} 2006-2023 Fredrik Lingvall.\n\
 
   for (thread_n = 0; thread_n < nthreads; thread_n++) {
 
-    col_start = ((octave_idx_type) thread_n) * A_N/nthreads;
-    col_stop =  ((octave_idx_type) thread_n+1) * A_N/nthreads;
+    col_start = ((octave_idx_type) thread_n) * B_N/nthreads;
+    col_stop =  ((octave_idx_type) thread_n+1) * B_N/nthreads;
 
     // Init local data.
     D[thread_n].col_start = col_start; // Local start index;
diff --git a/extra_src/oct_copy_p.cc b/extra_src/oct_copy_p.cc
index b1673b4..7d974f7 100644
--- a/extra_src/oct_copy_p.cc
+++ b/extra_src/oct_copy_p.cc
@@ -262,9 +262,9 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
     }
   }
 
-  // nthreads can't be larger then the number of columns in the A matrix.
-  if (nthreads > A_N) {
-    nthreads = A_N;
+  // nthreads can't be larger then the number of columns in the B matrix.
+  if (nthreads > B_N) {
+    nthreads = B_N;
   }
 
   if (nthreads < 1) {
@@ -309,8 +309,8 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
 
   for (thread_n = 0; thread_n < nthreads; thread_n++) {
 
-    line_start = ((octave_idx_type) thread_n) * A_N/nthreads;
-    line_stop =  ((octave_idx_type) thread_n+1) * A_N/nthreads;
+    line_start = ((octave_idx_type) thread_n) * B_N/nthreads;
+    line_stop =  ((octave_idx_type) thread_n+1) * B_N/nthreads;
 
     // Init local data.
     D[thread_n].line_start = line_start; // Local start index;
-- 
2.43.0


From e40d03bf5535434dd9063d4d1c8c6602f0f80767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:33 +0000
Subject: [PATCH 26/36] fix: octave: conv_p: check the arguments of the
 in-place call with a mode

---
 extra_src/oct_conv_p.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/extra_src/oct_conv_p.cc b/extra_src/oct_conv_p.cc
index 1cbcfc4..a017afe 100644
--- a/extra_src/oct_conv_p.cc
+++ b/extra_src/oct_conv_p.cc
@@ -193,6 +193,11 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
     break;
 
   case 4:
+    if (nlhs > 0) {
+      dream_err_msg("No output arguments required for conv_p in in-place operating mode!");
+      return oct_retval;
+    }
+
     if ( args(3).is_string() ) { // 4:th arg is a string '=', '+=', or '-='.
 
       std::string ip_mode = args(3).string_value();
@@ -223,6 +228,9 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
         dream_err_msg("Non-valid string in arg 4!");
         return oct_retval;
       }
+    } else { // 4th arg not a string
+      dream_err_msg("Argument 4 is not a valid string format!");
+      return oct_retval;
     }
     break;
 
-- 
2.43.0


From 6040b08f7899bdc7884655649d336502c107817e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:33 +0000
Subject: [PATCH 27/36] fix: octave: conv_p, fftconv_p, fftconv_ola: reject
 empty columns

---
 extra_src/oct_conv_p.cc      | 5 +++++
 extra_src/oct_fftconv_ola.cc | 5 +++++
 extra_src/oct_fftconv_p.cc   | 5 +++++
 3 files changed, 15 insertions(+)

diff --git a/extra_src/oct_conv_p.cc b/extra_src/oct_conv_p.cc
index a017afe..75b0266 100644
--- a/extra_src/oct_conv_p.cc
+++ b/extra_src/oct_conv_p.cc
@@ -261,6 +261,11 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
     B_N = 1;
   }
 
+  if (A_M < 1 || B_M < 1) {
+    dream_err_msg("Argument 1 and 2 must not be empty!");
+    return oct_retval;
+  }
+
   //
   // Number of threads.
   //
diff --git a/extra_src/oct_fftconv_ola.cc b/extra_src/oct_fftconv_ola.cc
index 796678f..ee48102 100644
--- a/extra_src/oct_fftconv_ola.cc
+++ b/extra_src/oct_fftconv_ola.cc
@@ -404,6 +404,11 @@ Copyright @copyright{} 2010-2021 Fredrik Lingvall.\n\
     B_N = 1;
   }
 
+  if (A_M < 1 || B_M < 1) {
+    error("Argument 1 and 2 must not be empty!");
+    return oct_retval;
+  }
+
 
   // The segment length (block length).
 
diff --git a/extra_src/oct_fftconv_p.cc b/extra_src/oct_fftconv_p.cc
index dd525bf..44b2e80 100644
--- a/extra_src/oct_fftconv_p.cc
+++ b/extra_src/oct_fftconv_p.cc
@@ -306,6 +306,11 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
     B_N = 1;
   }
 
+  if (A_M < 1 || B_M < 1) {
+    error("Argument 1 and 2 must not be empty!");
+    return oct_retval;
+  }
+
   fft_len = A_M+B_M-1;
 
   //std::mutex fft_mutex;
-- 
2.43.0


From 943c4cf92f0e1a3e84b18c0f7717a98b24f5492a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:33 +0000
Subject: [PATCH 28/36] fix: octave: fftconv_p, fftconv_ola: use the mode when
 a wisdom string follows it

---
 extra_src/oct_fftconv_ola.cc | 21 +++++++++++++++++++++
 extra_src/oct_fftconv_p.cc   | 21 +++++++++++++++++++++
 2 files changed, 42 insertions(+)

diff --git a/extra_src/oct_fftconv_ola.cc b/extra_src/oct_fftconv_ola.cc
index ee48102..73865e6 100644
--- a/extra_src/oct_fftconv_ola.cc
+++ b/extra_src/oct_fftconv_ola.cc
@@ -510,6 +510,27 @@ Copyright @copyright{} 2010-2021 Fredrik Lingvall.\n\
     break;
 
   case 6: // In-place mode if 6 input args.
+
+    // In-place mode string.
+    if ( args(4).is_string() ) {
+
+      std::string ip_mode = args(4).string_value();
+
+      if (ip_mode == "=") {
+        conv_mode=ConvMode::equ;
+      } else if (ip_mode == "+=") {
+        conv_mode=ConvMode::sum;
+      } else if (ip_mode == "-=") {
+        conv_mode=ConvMode::neg;
+      } else {
+        error("Non-valid string in arg 5!");
+        return oct_retval;
+      }
+    } else {
+      error("Argument 5 is not a valid string format!");
+      return oct_retval;
+    }
+
     if ( args(5).is_string() ) { // 6:th arg is a string (fftw wisdom).
 
       // Read the wisdom string.
diff --git a/extra_src/oct_fftconv_p.cc b/extra_src/oct_fftconv_p.cc
index 44b2e80..4d9f0ad 100644
--- a/extra_src/oct_fftconv_p.cc
+++ b/extra_src/oct_fftconv_p.cc
@@ -396,6 +396,27 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
     break;
 
   case 5: // In-place mode if input 5 args.
+
+    // In-place mode string.
+    if ( args(3).is_string() ) {
+
+      std::string ip_mode = args(3).string_value();
+
+      if (ip_mode == "=") {
+        conv_mode=ConvMode::equ;
+      } else if (ip_mode == "+=") {
+        conv_mode=ConvMode::sum;
+      } else if (ip_mode == "-=") {
+        conv_mode=ConvMode::neg;
+      } else {
+        error("Non-valid string in arg 4!");
+        return oct_retval;
+      }
+    } else {
+      error("Argument 4 is not a valid string format!");
+      return oct_retval;
+    }
+
     if ( args(4).is_string() ) { // 5:th arg is a string (FFTW wisdom).
 
       // Read the wisdom string.
-- 
2.43.0


From 69f3fdf8bcb0285df52dad96e092b357d611ddc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:33 +0000
Subject: [PATCH 29/36] fix: octave: fftconv_ola: step one column at a time
 when arg 2 is a vector

---
 extra_src/oct_fftconv_ola.cc | 2 --
 1 file changed, 2 deletions(-)

diff --git a/extra_src/oct_fftconv_ola.cc b/extra_src/oct_fftconv_ola.cc
index 73865e6..b780691 100644
--- a/extra_src/oct_fftconv_ola.cc
+++ b/extra_src/oct_fftconv_ola.cc
@@ -250,8 +250,6 @@ void* smp_dream_fftconv_ola(void *arg)
         break;
       }
 
-      Ap += A_M;
-
     } // for
   } // if
 
-- 
2.43.0


From ee944e5ab45ad74235f51df8f38d0fadb9750b73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:33 +0000
Subject: [PATCH 30/36] fix: octave: fftconv_ola: reject block length 0
 (endless loop)

---
 extra_src/oct_fftconv_ola.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/extra_src/oct_fftconv_ola.cc b/extra_src/oct_fftconv_ola.cc
index b780691..8a355f1 100644
--- a/extra_src/oct_fftconv_ola.cc
+++ b/extra_src/oct_fftconv_ola.cc
@@ -417,7 +417,7 @@ Copyright @copyright{} 2010-2021 Fredrik Lingvall.\n\
     return oct_retval;
   }
 
-  if (block_len < 0 || block_len > A_M) {
+  if (block_len < 1 || block_len > A_M) {
     error("Argument 3 is out of bounds! Must be > 0 and less than number of rows of arg 1!");
     return oct_retval;
   }
-- 
2.43.0


From d73ea9d110d7af8115d8a5017208743581c5aabe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:33 +0000
Subject: [PATCH 31/36] fix: octave: fftconv_ola: in-place modes used
 uninitialized and earlier blocks

---
 extra_src/oct_fftconv_ola.cc | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/extra_src/oct_fftconv_ola.cc b/extra_src/oct_fftconv_ola.cc
index 8a355f1..09bf827 100644
--- a/extra_src/oct_fftconv_ola.cc
+++ b/extra_src/oct_fftconv_ola.cc
@@ -110,6 +110,9 @@ void* smp_dream_fftconv_ola(void *arg)
   FFTVec a_block_v(fft_len);
   double *a_block = a_block_v.get();
 
+  // The blocks are convolved on their own and then added to (or subtracted from) the output.
+  double sign = (conv_mode == ConvMode::neg) ? -1.0 : 1.0;
+
   //
   // Do the convolution.
   //
@@ -122,6 +125,10 @@ void* smp_dream_fftconv_ola(void *arg)
 
     for (n=col_start; n<col_stop; n++) {
 
+      if (conv_mode == ConvMode::equ) { // Replace what is in the output column.
+        memset(&Y[n*(A_M+B_M-1)], 0, (A_M+B_M-1)*sizeof(double));
+      }
+
       //
       // The overlap-and-add algorithm.
       //
@@ -137,7 +144,7 @@ void* smp_dream_fftconv_ola(void *arg)
         if (k+block_len < A_M) {
 
           fftconv(fft, Ap, block_len, Bp, B_M, y,
-                  a, b, c, af, bf, cf, conv_mode);
+                  a, b, c, af, bf, cf, ConvMode::equ);
 
           len = block_len;
 
@@ -155,7 +162,7 @@ void* smp_dream_fftconv_ola(void *arg)
           memset(&a_block[A_M-k], 0, (block_len - len)*sizeof(double));
 
           fftconv(fft, a_block, block_len, Bp, B_M, y,
-                  a, b, c, af, bf, cf, conv_mode);
+                  a, b, c, af, bf, cf, ConvMode::equ);
         }
 
         Ap += len;
@@ -166,11 +173,11 @@ void* smp_dream_fftconv_ola(void *arg)
 
         if (k+fft_len <  A_M+B_M-1) {
           for (dream_idx_type l=0; l<fft_len; l++) {
-            Y[k+l + n*(A_M+B_M-1)] += y[l];
+            Y[k+l + n*(A_M+B_M-1)] += sign * y[l];
           }
         } else {
           for (dream_idx_type l=0; l<(A_M+B_M-1)-k; l++) {
-            Y[k+l + n*(A_M+B_M-1)] += y[l];
+            Y[k+l + n*(A_M+B_M-1)] += sign * y[l];
           }
         }
 
@@ -194,6 +201,10 @@ void* smp_dream_fftconv_ola(void *arg)
 
     for (n=col_start; n<col_stop; n++) {
 
+      if (conv_mode == ConvMode::equ) { // Replace what is in the output column.
+        memset(&Y[n*(A_M+B_M-1)], 0, (A_M+B_M-1)*sizeof(double));
+      }
+
       //
       // The overlap-and-add algorithm.
       //
@@ -206,7 +217,7 @@ void* smp_dream_fftconv_ola(void *arg)
         if (k+block_len < A_M) {
 
           fftconv(fft, Ap, block_len, B, B_M, y,
-                  a, b, c, af, bf, cf, conv_mode);
+                  a, b, c, af, bf, cf, ConvMode::equ);
 
           len = block_len;
 
@@ -224,7 +235,7 @@ void* smp_dream_fftconv_ola(void *arg)
           memset(&a_block[A_M-k], 0, (block_len - len)*sizeof(double));
 
           fftconv(fft, a_block, block_len, B, B_M, y,
-                  a, b, c, af, bf, cf, conv_mode);
+                  a, b, c, af, bf, cf, ConvMode::equ);
 
         }
 
@@ -233,11 +244,11 @@ void* smp_dream_fftconv_ola(void *arg)
         // Add the overlap.
         if (k+fft_len < A_M+B_M-1) {
           for (dream_idx_type l=0; l<fft_len; l++) {
-            Y[k+l + n*(A_M+B_M-1)] += y[l];
+            Y[k+l + n*(A_M+B_M-1)] += sign * y[l];
           }
         } else {
           for (dream_idx_type l=0; l<(A_M+B_M-1)-k; l++) {
-            Y[k+l + n*(A_M+B_M-1)] += y[l];
+            Y[k+l + n*(A_M+B_M-1)] += sign * y[l];
           }
         }
 
-- 
2.43.0


From 27c873be8e91b5613f7aa9a95a87ec0258c37f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:33 +0000
Subject: [PATCH 32/36] fix: octave: sum_fftconv: a one-row arg 2 holds one
 sample per input (was read out of bounds); reject empty columns

---
 extra_src/oct_sum_fftconv.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/extra_src/oct_sum_fftconv.cc b/extra_src/oct_sum_fftconv.cc
index c158383..7c2a54a 100644
--- a/extra_src/oct_sum_fftconv.cc
+++ b/extra_src/oct_sum_fftconv.cc
@@ -333,9 +333,9 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
     return oct_retval;
   }
 
-  if (U_M == 1 || U_N == 1 ) { // U is a vector.
-    U_M = U_M*U_N;
-    U_N = 1;
+  if (H_M < 1 || U_M < 1) {
+    dream_err_msg("Argument 1 and 2 must not be empty!");
+    return oct_retval;
   }
 
   fft_len = H_M+U_M-1;
-- 
2.43.0


From d4cd9e3457545c3db6b4d6f92984a849b636616c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:23:06 +0000
Subject: [PATCH 33/36] fix: octave: conv_p family: keep a converted in-place
 argument alive while the threads use it

---
 extra_src/oct_conv_p.cc      | 4 +++-
 extra_src/oct_fftconv_ola.cc | 4 +++-
 extra_src/oct_fftconv_p.cc   | 6 ++++--
 extra_src/oct_sum_fftconv.cc | 4 +++-
 4 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/extra_src/oct_conv_p.cc b/extra_src/oct_conv_p.cc
index 75b0266..3384ddb 100644
--- a/extra_src/oct_conv_p.cc
+++ b/extra_src/oct_conv_p.cc
@@ -306,6 +306,8 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
     std::cerr << "Couldn't register SIGINT signal handler!" << std::endl;
   }
 
+  Matrix Ytmp; // The in-place argument, must stay in scope until the threads are done.
+
   if (nrhs == 2) { // Test for in-place/normal mode.
 
     //
@@ -333,7 +335,7 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
       return oct_retval;
     }
 
-    const Matrix Ytmp = args(2).matrix_value();
+    Ytmp = args(2).matrix_value();
 
     Y = (double*) Ytmp.data();
   }
diff --git a/extra_src/oct_fftconv_ola.cc b/extra_src/oct_fftconv_ola.cc
index 09bf827..a10eddd 100644
--- a/extra_src/oct_fftconv_ola.cc
+++ b/extra_src/oct_fftconv_ola.cc
@@ -626,6 +626,8 @@ Copyright @copyright{} 2010-2021 Fredrik Lingvall.\n\
   // Normal (non in-place) mode.
   //
 
+  Matrix Ytmp; // The in-place argument, must stay in scope until the threads are done.
+
   if (nrhs == 3 || (nrhs == 4 && load_wisdom)) { // Normal mode.
 
     // Allocate mamory for the output matrix.
@@ -654,7 +656,7 @@ Copyright @copyright{} 2010-2021 Fredrik Lingvall.\n\
       return oct_retval;
     }
 
-    const Matrix Ytmp = args(3).matrix_value();
+    Ytmp = args(3).matrix_value();
     Y = (double*) Ytmp.data();
   }
 
diff --git a/extra_src/oct_fftconv_p.cc b/extra_src/oct_fftconv_p.cc
index 4d9f0ad..1372497 100644
--- a/extra_src/oct_fftconv_p.cc
+++ b/extra_src/oct_fftconv_p.cc
@@ -496,6 +496,8 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
   // Normal (non in-place) mode.
   //
 
+  Matrix Ytmp; // The in-place argument, must stay in scope until the threads are done.
+
   if (nrhs == 2 || (nrhs == 3 && load_wisdom)) { // Normal mode.
 
     Matrix Ymat(A_M+B_M-1, A_N);
@@ -523,8 +525,8 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
       return oct_retval;
     }
 
-    const Matrix Ymat = args(2).matrix_value();
-    Y = (double*) Ymat.data(); // NB. Do  not clear data here!
+    Ytmp = args(2).matrix_value();
+    Y = (double*) Ytmp.data(); // NB. Do  not clear data here!
   }
 
   //
diff --git a/extra_src/oct_sum_fftconv.cc b/extra_src/oct_sum_fftconv.cc
index 7c2a54a..796d8cf 100644
--- a/extra_src/oct_sum_fftconv.cc
+++ b/extra_src/oct_sum_fftconv.cc
@@ -455,6 +455,8 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
   // Normal (non in-place) mode.
   //
 
+  Matrix Ytmp; // The in-place argument, must stay in scope until the threads are done.
+
   if (nrhs == 2 ||  (nrhs == 3 && load_wisdom)) {
 
     Matrix Ymat(fft_len, H_N);
@@ -485,7 +487,7 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
       return oct_retval;
     }
 
-    const Matrix Ytmp = args(2).matrix_value(); // This will make it stay in scope.
+    Ytmp = args(2).matrix_value();
     Y = (double*) Ytmp.data();
   }
 
-- 
2.43.0


From e9f960b5d07ed9262093800a2378528866570011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:29:37 +0000
Subject: [PATCH 34/36] fix: octave: dream_att: reject lengths below 1 (wrote
 outside the result)

---
 oct/oct_dream_att.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/oct/oct_dream_att.cc b/oct/oct_dream_att.cc
index 9351f7a..36bf25f 100644
--- a/oct/oct_dream_att.cc
+++ b/oct/oct_dream_att.cc
@@ -131,6 +131,10 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
   s_par = (double*) tmp1.data();
   dt    = s_par[0];		// Temporal discretization size (= 1/sampling freq).
   nt    = (int) s_par[1];	// Length of SIR.
+  if (nt < 1) {
+    error("The length of the impulse response must be at least 1!");
+    return oct_retval;
+  }
 
   //
   // Start point of impulse response vector ([us]).
-- 
2.43.0


From 58cbc37f64ed9a096ca86ada458b55b0d39b6df4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:29:37 +0000
Subject: [PATCH 35/36] fix: octave: dream_apodwin: 'off' returned memory that
 was never set

---
 oct/oct_dream_apodwin.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/oct/oct_dream_apodwin.cc b/oct/oct_dream_apodwin.cc
index af6a2aa..b21898a 100644
--- a/oct/oct_dream_apodwin.cc
+++ b/oct/oct_dream_apodwin.cc
@@ -132,6 +132,10 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
       apodization(apod_met, n, apod.get(), &weight, xs, ys, ramax, apod_par);
       h[n] = weight;
     }
+  } else { // No apodization.
+    for (dream_idx_type n=0; n<num_elements; n++) {
+      h[n] = weight;
+    }
   }
 
   oct_retval.append(h_mat);
-- 
2.43.0


From d973ebf133281634743a90b20e33f831ccb4b501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:29:37 +0000
Subject: [PATCH 36/36] fix: octave: dream_apodwin: 'ud' took the first weight
 for the number of weights; reject empty windows

---
 oct/oct_dream_apodwin.cc | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/oct/oct_dream_apodwin.cc b/oct/oct_dream_apodwin.cc
index b21898a..e814b54 100644
--- a/oct/oct_dream_apodwin.cc
+++ b/oct/oct_dream_apodwin.cc
@@ -108,7 +108,18 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
   //
 
   const Matrix tmp1 = args(1).matrix_value();
+  if (tmp1.rows()*tmp1.cols() < 1) {
+    error("Argument 2 must not be empty!");
+    return oct_retval;
+  }
   dream_idx_type num_elements = (dream_idx_type) tmp1.data()[0];
+  if (args(0).is_string() && args(0).string_value() == "ud") {
+    num_elements = tmp1.rows()*tmp1.cols(); // Argument 2 is the weights and not the length.
+  }
+  if (num_elements < 1) {
+    error("The length of the apodization window must be at least 1!");
+    return oct_retval;
+  }
 
   // Allocate space for the user defined apodization weights
   std::unique_ptr<double[]> apod = std::make_unique<double[]>(num_elements);
-- 
2.43.0

