From 3f60c1647cfea64b1d14d1d6eea8b95dbf621d7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:58:33 +0000
Subject: [PATCH 01/41] fix: covering a self-contained rule must satisfy both
 match and action

rule_dgp_act_cover() and rule_neural_act_cover() stopped as soon as either the
rule matched the input or it advocated the action, so covering inserted rules
that do not match the input they were created for, or do not advocate the
action they are recorded under.
---
 xcsf/rule_dgp.c    | 2 +-
 xcsf/rule_neural.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/xcsf/rule_dgp.c b/xcsf/rule_dgp.c
index e7b77d1..a350d49 100644
--- a/xcsf/rule_dgp.c
+++ b/xcsf/rule_dgp.c
@@ -221,7 +221,7 @@ rule_dgp_act_cover(const struct XCSF *xcsf, const struct Cl *c, const double *x,
     struct RuleDGP *cond = c->cond;
     do {
         graph_rand(&cond->dgp);
-    } while (!rule_dgp_cond_match(xcsf, c, x) &&
+    } while (!rule_dgp_cond_match(xcsf, c, x) ||
              rule_dgp_act_compute(xcsf, c, x) != action);
 }
 
diff --git a/xcsf/rule_neural.c b/xcsf/rule_neural.c
index 9618332..633177a 100644
--- a/xcsf/rule_neural.c
+++ b/xcsf/rule_neural.c
@@ -230,7 +230,7 @@ rule_neural_act_cover(const struct XCSF *xcsf, const struct Cl *c,
     const struct RuleNeural *cond = c->cond;
     do {
         neural_rand(&cond->net);
-    } while (!rule_neural_cond_match(xcsf, c, x) &&
+    } while (!rule_neural_cond_match(xcsf, c, x) ||
              rule_neural_act_compute(xcsf, c, x) != action);
 }
 
-- 
2.43.0


From 3df6334bbec6ea51fd67d3025d0395505f028b98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:58:33 +0000
Subject: [PATCH 02/41] fix: keep match set numerosity true when covering
 deletes a micro-classifier

clset_cover() only re-validated the match set when a macro-classifier was
removed. When deletion decremented the numerosity of a macro-classifier in the
match set, mset.num stayed too large, and with it the set size estimates
learned from it.
---
 xcsf/clset.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/xcsf/clset.c b/xcsf/clset.c
index fb03cf0..de713bb 100644
--- a/xcsf/clset.c
+++ b/xcsf/clset.c
@@ -174,11 +174,11 @@ clset_cover(struct XCSF *xcsf, const double *x)
             }
         }
         // enforce population size
-        const int prev_psize = xcsf->pset.size;
+        const int prev_pnum = xcsf->pset.num;
         clset_pset_enforce_limit(xcsf);
-        // if a macro classifier was deleted,
-        // remove any deleted rules from the match set
-        if (prev_psize > xcsf->pset.size) {
+        // if a (micro or macro) classifier was deleted, remove any deleted
+        // rules from the match set and update its numerosity
+        if (prev_pnum > xcsf->pset.num) {
             const int prev_msize = xcsf->mset.size;
             clset_validate(&xcsf->mset);
             // if the deleted classifier was in the match set,
-- 
2.43.0


From c31c4dee2f2f4f3a5a22ef7c24e5b515c54787f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:58:33 +0000
Subject: [PATCH 03/41] fix: reinforce the terminal action set with predictions
 for its own state

In a multi-step problem, updating the previous action set overwrites
c->prediction with the prediction for the previous state. Rules that are also
in the terminal action set were then updated with that stale prediction.
---
 xcsf/xcs_rl.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/xcsf/xcs_rl.c b/xcsf/xcs_rl.c
index 2b4e18d..d60ddc6 100644
--- a/xcsf/xcs_rl.c
+++ b/xcsf/xcs_rl.c
@@ -193,7 +193,10 @@ xcs_rl_update(struct XCSF *xcsf, const double *state, const int action,
               const double reward, const bool done)
 {
     clset_action(xcsf, action); // create action set
-    if (xcsf->prev_aset.list != NULL) { // update previous action set and run EA
+    // updating the previous action set recomputes predictions for the previous
+    // state: they must be recomputed again for rules that are in both sets
+    const bool cur = (xcsf->prev_aset.list == NULL);
+    if (!cur) { // update previous action set and run EA
         const double p = xcsf->prev_reward + (xcsf->GAMMA * pa_best_val(xcsf));
         clset_validate(&xcsf->prev_aset);
         clset_update(xcsf, &xcsf->prev_aset, xcsf->prev_state, &p, false);
@@ -203,7 +206,7 @@ xcs_rl_update(struct XCSF *xcsf, const double *state, const int action,
     }
     if (done) { // in terminal state: update current action set and run EA
         clset_validate(&xcsf->aset);
-        clset_update(xcsf, &xcsf->aset, state, &reward, true);
+        clset_update(xcsf, &xcsf->aset, state, &reward, cur);
         if (xcsf->explore) {
             ea(xcsf, &xcsf->aset);
         }
-- 
2.43.0


From 810f7a2fcccb690fcfc401df777b2bb6e9fe6156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:10 +0000
Subject: [PATCH 04/41] fix: copy the cover array given to predict() and
 score()

The model kept a pointer to the caller's buffer: a later call without cover
zeroed the caller's array, and a temporary's memory was used after free.
---
 xcsf/pybind_wrapper.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/xcsf/pybind_wrapper.cpp b/xcsf/pybind_wrapper.cpp
index d90636a..fa645d6 100644
--- a/xcsf/pybind_wrapper.cpp
+++ b/xcsf/pybind_wrapper.cpp
@@ -569,7 +569,10 @@ class XCS
             memset(xcs.cover, 0, sizeof(double) * xcs.pa_size);
         } else {
             py::array_t<double> cover_arr = cover.cast<py::array_t<double>>();
-            xcs.cover = get_cover(cover_arr);
+            const double *values = get_cover(cover_arr);
+            for (int i = 0; i < xcs.pa_size; ++i) {
+                xcs.cover[i] = values[i % xcs.y_dim];
+            }
         }
     }
 
-- 
2.43.0


From 934a01074d9167bde69de845563e98ca47092807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:10 +0000
Subject: [PATCH 05/41] fix: read numpy arrays of any memory layout correctly

Strides were ignored, so sliced or column-major arrays were misread.
---
 xcsf/pybind_wrapper.cpp | 29 ++++++++++++++++-------------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/xcsf/pybind_wrapper.cpp b/xcsf/pybind_wrapper.cpp
index fa645d6..899b1fe 100644
--- a/xcsf/pybind_wrapper.cpp
+++ b/xcsf/pybind_wrapper.cpp
@@ -40,6 +40,9 @@
 
 namespace py = pybind11;
 
+/// Row-major array of doubles: any other layout or type is converted.
+using array_d = py::array_t<double, py::array::c_style | py::array::forcecast>;
+
 extern "C" {
 #include "action.h"
 #include "clset.h"
@@ -222,7 +225,7 @@ class XCS
      * @return The prediction error.
      */
     double
-    fit(const py::array_t<double> input, const int action, const double reward)
+    fit(const array_d input, const int action, const double reward)
     {
         py::buffer_info buf = input.request();
         if (buf.shape[0] != xcs.x_dim) {
@@ -284,7 +287,7 @@ class XCS
      * @return The selected action.
      */
     int
-    decision(const py::array_t<double> input, const bool explore)
+    decision(const array_d input, const bool explore)
     {
         py::buffer_info buf = input.request();
         if (buf.shape[0] != xcs.x_dim) {
@@ -334,8 +337,8 @@ class XCS
      * @param [in] Y Vector of truth values with shape (n_samples, y_dim).
      */
     void
-    load_input(struct Input *data, const py::array_t<double> X,
-               const py::array_t<double> Y)
+    load_input(struct Input *data, const array_d X,
+               const array_d Y)
     {
         // access input
         const py::buffer_info buf_x = X.request();
@@ -433,8 +436,8 @@ class XCS
                     throw std::invalid_argument(
                         "validation_data must be a tuple with two arrays");
                 }
-                py::array_t<double> X_val = data[0].cast<py::array_t<double>>();
-                py::array_t<double> y_val = data[1].cast<py::array_t<double>>();
+                array_d X_val = data[0].cast<array_d>();
+                array_d y_val = data[1].cast<array_d>();
                 load_input(test_data, X_val, y_val);
                 val_data = test_data;
                 // use zeros for validation predictions instead of covering
@@ -496,7 +499,7 @@ class XCS
      * @return The fitted XCSF model.
      */
     XCS &
-    fit(const py::array_t<double> X_train, const py::array_t<double> y_train,
+    fit(const array_d X_train, const array_d y_train,
         const bool shuffle, const bool warm_start, const bool verbose,
         py::object callbacks, py::kwargs kwargs)
     {
@@ -540,7 +543,7 @@ class XCS
      * @return The cover array values.
      */
     double *
-    get_cover(const py::array_t<double> cover)
+    get_cover(const array_d cover)
     {
         const py::buffer_info buf_c = cover.request();
         if (buf_c.ndim != 1) {
@@ -568,7 +571,7 @@ class XCS
         if (cover.is_none()) {
             memset(xcs.cover, 0, sizeof(double) * xcs.pa_size);
         } else {
-            py::array_t<double> cover_arr = cover.cast<py::array_t<double>>();
+            array_d cover_arr = cover.cast<array_d>();
             const double *values = get_cover(cover_arr);
             for (int i = 0; i < xcs.pa_size; ++i) {
                 xcs.cover[i] = values[i % xcs.y_dim];
@@ -584,7 +587,7 @@ class XCS
      * @return The prediction array values.
      */
     py::array_t<double>
-    predict(const py::array_t<double> X, const py::object &cover)
+    predict(const array_d X, const py::object &cover)
     {
         const py::buffer_info buf_x = X.request();
         if (buf_x.ndim < 1 || buf_x.ndim > 2) {
@@ -618,7 +621,7 @@ class XCS
      * @return The average XCSF error using the loss function.
      */
     double
-    score(const py::array_t<double> X, const py::array_t<double> Y, const int N,
+    score(const array_d X, const array_d Y, const int N,
           const py::object &cover)
     {
         set_cover(cover);
@@ -946,9 +949,9 @@ PYBIND11_MODULE(xcsf, m)
               "machine learning.\nFor details on how to use this module see: "
               "https://github.com/xcsf-dev/xcsf/wiki/Python-Library-Usage";
 
-    double (XCS::*fit1)(const py::array_t<double>, const int, const double) =
+    double (XCS::*fit1)(const array_d, const int, const double) =
         &XCS::fit;
-    XCS &(XCS::*fit2)(const py::array_t<double>, const py::array_t<double>,
+    XCS &(XCS::*fit2)(const array_d, const array_d,
                       const bool, const bool, const bool, py::object,
                       py::kwargs) = &XCS::fit;
 
-- 
2.43.0


From d7634c645a570267d5ade53f89457507f696f85c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:43 +0000
Subject: [PATCH 06/41] fix: reject arrays whose shape does not fit the model

1-D X (y) with x_dim (y_dim) above one, and over-sized RL states, were read
out of bounds or partially.
---
 xcsf/pybind_wrapper.cpp | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/xcsf/pybind_wrapper.cpp b/xcsf/pybind_wrapper.cpp
index 899b1fe..5ceb8d5 100644
--- a/xcsf/pybind_wrapper.cpp
+++ b/xcsf/pybind_wrapper.cpp
@@ -228,7 +228,7 @@ class XCS
     fit(const array_d input, const int action, const double reward)
     {
         py::buffer_info buf = input.request();
-        if (buf.shape[0] != xcs.x_dim) {
+        if (buf.ndim < 1 || buf.shape[0] != xcs.x_dim || buf.size != xcs.x_dim) {
             std::ostringstream error;
             error << "fit(): x_dim is not equal to: " << xcs.x_dim << std::endl;
             throw std::invalid_argument(error.str());
@@ -290,7 +290,7 @@ class XCS
     decision(const array_d input, const bool explore)
     {
         py::buffer_info buf = input.request();
-        if (buf.shape[0] != xcs.x_dim) {
+        if (buf.ndim < 1 || buf.shape[0] != xcs.x_dim || buf.size != xcs.x_dim) {
             std::ostringstream error;
             error << "decision(): x_dim is not equal to: " << xcs.x_dim;
             throw std::invalid_argument(error.str());
@@ -353,18 +353,20 @@ class XCS
         if (buf_x.shape[0] != buf_y.shape[0]) {
             throw std::invalid_argument("X and Y n_samples are not equal");
         }
-        if (buf_x.ndim > 1 && buf_x.shape[1] != xcs.x_dim) {
+        const int x_dim = buf_x.ndim > 1 ? buf_x.shape[1] : 1;
+        const int y_dim = buf_y.ndim > 1 ? buf_y.shape[1] : 1;
+        if (x_dim != xcs.x_dim) {
             std::ostringstream error;
             error << "load_input():";
-            error << " received x_dim: (" << buf_x.shape[1] << ")";
+            error << " received x_dim: (" << x_dim << ")";
             error << " but expected (" << xcs.x_dim << ")" << std::endl;
             error << "Perhaps reshape your data.";
             throw std::invalid_argument(error.str());
         }
-        if (buf_y.ndim > 1 && buf_y.shape[1] != xcs.y_dim) {
+        if (y_dim != xcs.y_dim) {
             std::ostringstream error;
             error << "load_input():";
-            error << " received y_dim: (" << buf_y.shape[1] << ")";
+            error << " received y_dim: (" << y_dim << ")";
             error << " but expected (" << xcs.y_dim << ")" << std::endl;
             error << "Perhaps reshape your data.";
             throw std::invalid_argument(error.str());
@@ -593,10 +595,11 @@ class XCS
         if (buf_x.ndim < 1 || buf_x.ndim > 2) {
             throw std::invalid_argument("predict(): X must be 1 or 2-D array");
         }
-        if (buf_x.ndim > 1 && buf_x.shape[1] != xcs.x_dim) {
+        const int x_dim = buf_x.ndim > 1 ? buf_x.shape[1] : 1;
+        if (x_dim != xcs.x_dim) {
             std::ostringstream error;
             error << "predict():";
-            error << " received x_dim: (" << buf_x.shape[1] << ")";
+            error << " received x_dim: (" << x_dim << ")";
             error << " but expected (" << xcs.x_dim << ")" << std::endl;
             error << "Perhaps reshape your data.";
             throw std::invalid_argument(error.str());
-- 
2.43.0


From 41b59463a1c254fd42cced1e4c7d2f48cc0d60d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:43 +0000
Subject: [PATCH 07/41] fix: check the data before a cold fit discards the
 model

---
 xcsf/pybind_wrapper.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xcsf/pybind_wrapper.cpp b/xcsf/pybind_wrapper.cpp
index 5ceb8d5..3cf18a1 100644
--- a/xcsf/pybind_wrapper.cpp
+++ b/xcsf/pybind_wrapper.cpp
@@ -505,12 +505,12 @@ class XCS
         const bool shuffle, const bool warm_start, const bool verbose,
         py::object callbacks, py::kwargs kwargs)
     {
+        load_input(train_data, X_train, y_train);
+        load_validation_data(kwargs);
         if (!warm_start) { // re-initialise XCSF as necessary
             xcsf_free(&xcs);
             xcsf_init(&xcs);
         }
-        load_input(train_data, X_train, y_train);
-        load_validation_data(kwargs);
         // get callbacks
         py::list calls;
         if (py::isinstance<py::list>(callbacks)) {
-- 
2.43.0


From c70f63d3317c29aad346ea4c95cfc2843ef5b8ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:43 +0000
Subject: [PATCH 08/41] fix: keep converted validation data and RL states alive

fit(validation_data=...) and decision() kept pointers into temporary arrays,
and into the caller's state array which may change before update().
---
 xcsf/pybind_wrapper.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/xcsf/pybind_wrapper.cpp b/xcsf/pybind_wrapper.cpp
index 3cf18a1..7b752b8 100644
--- a/xcsf/pybind_wrapper.cpp
+++ b/xcsf/pybind_wrapper.cpp
@@ -68,7 +68,9 @@ class XCS
 {
   private:
     struct XCSF xcs; //!< XCSF data structure
-    double *state; //!< Current input state for RL
+    const double *state; //!< Current input state for RL
+    py::object state_owner; //!< Keeps the current input state alive
+    py::object val_owner; //!< Keeps the validation data alive
     int action; //!< Current action for RL
     double payoff; //!< Current reward for RL
     struct Input *train_data; //!< Training data for supervised learning
@@ -239,7 +241,8 @@ class XCS
                   << std::endl;
             throw std::invalid_argument(error.str());
         }
-        state = (double *) buf.ptr;
+        state_owner = array_d(buf.size, static_cast<double *>(buf.ptr));
+        state = state_owner.cast<array_d>().data();
         return xcs_rl_fit(&xcs, state, action, reward);
     }
 
@@ -295,7 +298,8 @@ class XCS
             error << "decision(): x_dim is not equal to: " << xcs.x_dim;
             throw std::invalid_argument(error.str());
         }
-        state = (double *) buf.ptr;
+        state_owner = array_d(buf.size, static_cast<double *>(buf.ptr));
+        state = state_owner.cast<array_d>().data();
         param_set_explore(&xcs, explore);
         action = xcs_rl_decision(&xcs, state);
         return action;
@@ -441,6 +445,7 @@ class XCS
                 array_d X_val = data[0].cast<array_d>();
                 array_d y_val = data[1].cast<array_d>();
                 load_input(test_data, X_val, y_val);
+                val_owner = py::make_tuple(X_val, y_val);
                 val_data = test_data;
                 // use zeros for validation predictions instead of covering
                 memset(xcs.cover, 0, sizeof(double) * xcs.pa_size);
-- 
2.43.0


From 548884eead5bfbe9fccbde36942b2c7c118e1e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:43 +0000
Subject: [PATCH 09/41] fix: score() with N=1 draws one sample instead of using
 all

---
 xcsf/pybind_wrapper.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xcsf/pybind_wrapper.cpp b/xcsf/pybind_wrapper.cpp
index 7b752b8..1dff7f1 100644
--- a/xcsf/pybind_wrapper.cpp
+++ b/xcsf/pybind_wrapper.cpp
@@ -634,7 +634,7 @@ class XCS
     {
         set_cover(cover);
         load_input(test_data, X, Y);
-        if (N > 1) {
+        if (N > 0) {
             return xcs_supervised_score_n(&xcs, test_data, N, xcs.cover);
         }
         return xcs_supervised_score(&xcs, test_data, xcs.cover);
-- 
2.43.0


From 295b7e8c2e10ae4c8bc61709ad68850ccb38960a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:43 +0000
Subject: [PATCH 10/41] fix: fit() executes exactly max_trials trials

A max_trials that is not a multiple of perf_trials was rounded up.
---
 xcsf/pybind_wrapper.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/xcsf/pybind_wrapper.cpp b/xcsf/pybind_wrapper.cpp
index 1dff7f1..956d0b8 100644
--- a/xcsf/pybind_wrapper.cpp
+++ b/xcsf/pybind_wrapper.cpp
@@ -83,7 +83,7 @@ class XCS
     py::list metric_psize;
     py::list metric_msize;
     py::list metric_mfrac;
-    int metric_counter;
+    int metric_counter; //!< Number of trials run
 
   public:
     /**
@@ -417,14 +417,13 @@ class XCS
     void
     update_metrics(const double train, const double val, const int n_trials)
     {
-        const int trial = (1 + metric_counter) * n_trials;
+        metric_counter += n_trials;
         metric_train.append(train);
         metric_val.append(val);
-        metric_trial.append(trial);
+        metric_trial.append(metric_counter);
         metric_psize.append(xcs.pset.size);
         metric_msize.append(xcs.mset_size);
         metric_mfrac.append(xcs.mfrac);
-        ++metric_counter;
     }
 
     /**
@@ -523,9 +522,10 @@ class XCS
         }
         // break up the learning into epochs to track metrics
         const int n = ceil(xcs.MAX_TRIALS / (double) xcs.PERF_TRIALS);
-        const int n_trials = std::min(xcs.MAX_TRIALS, xcs.PERF_TRIALS);
         for (int i = 0; i < n; ++i) {
-            const int start = i * n_trials;
+            const int start = i * xcs.PERF_TRIALS;
+            const int n_trials =
+                std::min(xcs.MAX_TRIALS - start, xcs.PERF_TRIALS);
             const double train_error = xcs_supervised_fit(
                 &xcs, train_data, NULL, shuffle, start, n_trials);
             double val_error = 0;
-- 
2.43.0


From a02644e375593c2e67ac1b4cb54004ca7a84e4f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:18 +0000
Subject: [PATCH 11/41] fix: a new model does not inherit a cached Gaussian

Models built with the same seed differed after an odd number of Gaussian
draws earlier in the process.
---
 xcsf/utils.c | 16 +++++++++++++---
 xcsf/utils.h |  3 +++
 xcsf/xcsf.c  |  2 ++
 3 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/xcsf/utils.c b/xcsf/utils.c
index 0293403..ac776c4 100644
--- a/xcsf/utils.c
+++ b/xcsf/utils.c
@@ -27,6 +27,8 @@
 #include <stdbool.h>
 #include <time.h>
 
+static bool normal_cached; //!< Whether a second Gaussian is available
+
 /**
  * @brief Initialises the pseudo-random number generator.
  */
@@ -76,6 +78,15 @@ rand_uniform_int(const int min, const int max)
     return (int) floor(rand_uniform(min, max));
 }
 
+/**
+ * @brief Discards any cached Gaussian.
+ */
+void
+rand_normal_reset(void)
+{
+    normal_cached = false;
+}
+
 /**
  * @brief Returns a random Gaussian with specified mean and standard deviation.
  * @details Box-Muller transform.
@@ -88,9 +99,8 @@ rand_normal(const double mu, const double sigma)
 {
     static const double two_pi = 2 * M_PI;
     static double z1;
-    static bool generate;
-    generate = !generate;
-    if (!generate) {
+    normal_cached = !normal_cached;
+    if (!normal_cached) {
         return z1 * sigma + mu;
     }
     const double u1 = dsfmt_gv_genrand_open_open();
diff --git a/xcsf/utils.h b/xcsf/utils.h
index 2df6236..b679fa7 100644
--- a/xcsf/utils.h
+++ b/xcsf/utils.h
@@ -34,6 +34,9 @@
 double
 rand_normal(const double mu, const double sigma);
 
+void
+rand_normal_reset(void);
+
 double
 rand_uniform(const double min, const double max);
 
diff --git a/xcsf/xcsf.c b/xcsf/xcsf.c
index 7873924..a573e8a 100644
--- a/xcsf/xcsf.c
+++ b/xcsf/xcsf.c
@@ -28,6 +28,7 @@
 #include "pa.h"
 #include "param.h"
 #include "pred_neural.h"
+#include "utils.h"
 
 /**
  * @brief Initialises XCSF with an empty population.
@@ -45,6 +46,7 @@ xcsf_init(struct XCSF *xcsf)
     clset_init(&xcsf->pset);
     clset_init(&xcsf->prev_pset);
     pa_init(xcsf);
+    rand_normal_reset(); // independent of what ran earlier
     clset_pset_init(xcsf);
 }
 
-- 
2.43.0


From c2424ca31a1137726941f41aa50e307e4ad4ec86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:18 +0000
Subject: [PATCH 12/41] fix: stored populations keep the values of constant
 predictors

---
 xcsf/cl.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/xcsf/cl.c b/xcsf/cl.c
index 7fa9e44..95352c0 100644
--- a/xcsf/cl.c
+++ b/xcsf/cl.c
@@ -84,6 +84,7 @@ void
 cl_init_copy(const struct XCSF *xcsf, struct Cl *dest, const struct Cl *src)
 {
     dest->prediction = calloc(xcsf->y_dim, sizeof(double));
+    memcpy(dest->prediction, src->prediction, sizeof(double) * xcsf->y_dim);
     dest->fit = src->fit;
     dest->err = src->err;
     dest->num = src->num;
-- 
2.43.0


From b80f6fd81614bcf307084e2ba1d4c29815d806c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:18 +0000
Subject: [PATCH 13/41] fix: loading a model resizes the prediction array to
 its dimensions

---
 xcsf/xcsf.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/xcsf/xcsf.c b/xcsf/xcsf.c
index a573e8a..3a6f9fa 100644
--- a/xcsf/xcsf.c
+++ b/xcsf/xcsf.c
@@ -139,6 +139,8 @@ xcsf_load(struct XCSF *xcsf, const char *filename)
         exit(EXIT_FAILURE);
     }
     s += param_load(xcsf, fp);
+    pa_free(xcsf);
+    pa_init(xcsf);
     s += clset_pset_load(xcsf, fp);
     fclose(fp);
     return s;
-- 
2.43.0


From cc9d25f8205a863dfd31f4b5ce688919d273fdd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:18 +0000
Subject: [PATCH 14/41] fix: importing parameters gives conditions and networks
 all inputs

Tree, graph and default network arguments kept the number of inputs from
before x_dim was set, so models built from Python only used the first input.
---
 xcsf/param.c | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/xcsf/param.c b/xcsf/param.c
index 5c536b9..b7ab577 100644
--- a/xcsf/param.c
+++ b/xcsf/param.c
@@ -24,7 +24,10 @@
 #include "param.h"
 #include "action.h"
 #include "condition.h"
+#include "dgp.h"
 #include "ea.h"
+#include "gp.h"
+#include "neural_layer_args.h"
 #include "prediction.h"
 #include "utils.h"
 
@@ -428,6 +431,23 @@ param_json_import_prediction(struct XCSF *xcsf, cJSON *json)
     }
 }
 
+/**
+ * @brief Sets the number of inputs to conditions and predictions.
+ * @param [in,out] xcsf The XCSF data structure.
+ */
+static void
+param_json_import_n_inputs(struct XCSF *xcsf)
+{
+    graph_param_set_n_inputs(xcsf->cond->dargs, xcsf->x_dim);
+    tree_param_set_n_inputs(xcsf->cond->targs, xcsf->x_dim);
+    if (xcsf->cond->largs != NULL) {
+        xcsf->cond->largs->n_inputs = xcsf->x_dim;
+    }
+    if (xcsf->pred->largs != NULL) {
+        xcsf->pred->largs->n_inputs = xcsf->x_dim;
+    }
+}
+
 /**
  * @brief Sets the parameters from a json formatted string.
  * @param [in,out] xcsf The XCSF data structure.
@@ -470,6 +490,7 @@ param_json_import(struct XCSF *xcsf, const char *json_str)
         printf("Error: unable to import parameter: %s\n", iter->string);
         exit(EXIT_FAILURE);
     }
+    param_json_import_n_inputs(xcsf);
     cJSON_Delete(json);
 }
 
-- 
2.43.0


From a58fb02e76a0fb2a46fe2af7b45e857162aa26e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:33 +0000
Subject: [PATCH 15/41] fix: report the new y_dim and loss after
 ae_to_classifier()

---
 xcsf/pybind_wrapper.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/xcsf/pybind_wrapper.cpp b/xcsf/pybind_wrapper.cpp
index 956d0b8..3b5552d 100644
--- a/xcsf/pybind_wrapper.cpp
+++ b/xcsf/pybind_wrapper.cpp
@@ -203,6 +203,7 @@ class XCS
     ae_to_classifier(const int y_dim, const int n_del)
     {
         xcsf_ae_to_classifier(&xcs, y_dim, n_del);
+        update_params();
     }
 
     /**
-- 
2.43.0


From 7ffac0f936b14344958269ed71e517dc2b254d59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:33 +0000
Subject: [PATCH 16/41] fix: inserting an empty list of classifiers does
 nothing

---
 xcsf/clset.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xcsf/clset.c b/xcsf/clset.c
index de713bb..d58a3f4 100644
--- a/xcsf/clset.c
+++ b/xcsf/clset.c
@@ -797,7 +797,8 @@ clset_json_insert(struct XCSF *xcsf, const char *json_str)
 {
     cJSON *json = cJSON_Parse(json_str);
     utils_json_parse_check(json);
-    if (json->child != NULL && cJSON_IsArray(json->child)) {
+    if (json->child != NULL && cJSON_IsArray(json->child) &&
+        json->child->child != NULL) {
         cJSON *tail = json->child->child; // insert inverted for consistency
         tail->prev = NULL; // this should have been set by cJSON!
         while (tail->next != NULL) {
-- 
2.43.0


From e5baf1dbe967617fcc5c317356b8aa477d4e925b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:00 +0000
Subject: [PATCH 17/41] fix: tree GP constants are drawn after seeding

---
 xcsf/xcsf.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/xcsf/xcsf.c b/xcsf/xcsf.c
index 3a6f9fa..b0ea341 100644
--- a/xcsf/xcsf.c
+++ b/xcsf/xcsf.c
@@ -24,6 +24,8 @@
 #include "cl.h"
 #include "clset.h"
 #include "cond_neural.h"
+#include "condition.h"
+#include "gp.h"
 #include "loss.h"
 #include "pa.h"
 #include "param.h"
@@ -47,6 +49,9 @@ xcsf_init(struct XCSF *xcsf)
     clset_init(&xcsf->prev_pset);
     pa_init(xcsf);
     rand_normal_reset(); // independent of what ran earlier
+    if (xcsf->cond->type == COND_TYPE_GP) { // constants drawn after seeding
+        tree_args_init_constants(xcsf->cond->targs);
+    }
     clset_pset_init(xcsf);
 }
 
-- 
2.43.0


From 02c06438b1133e52ddbc0933e9340dc60b25791a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:52:30 +0000
Subject: [PATCH 18/41] fix: reject imported graph connections just past the
 last node

---
 xcsf/dgp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xcsf/dgp.c b/xcsf/dgp.c
index 27190e6..9065322 100644
--- a/xcsf/dgp.c
+++ b/xcsf/dgp.c
@@ -458,7 +458,7 @@ graph_json_import_connectivity(struct Graph *dgp, const cJSON *json)
         const int max_c = dgp->n + dgp->n_inputs;
         for (int i = 0; i < dgp->klen; ++i) {
             const cJSON *item_i = cJSON_GetArrayItem(item, i);
-            if (item_i->valueint < 0 || item_i->valueint > max_c) {
+            if (item_i->valueint < 0 || item_i->valueint >= max_c) {
                 printf("Import error: connectivity value out of bounds\n");
                 exit(EXIT_FAILURE);
             }
-- 
2.43.0


From e4ebdbca8311bedb900566d692aedd6acad0cbd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:52:58 +0000
Subject: [PATCH 19/41] fix: loading a model resizes the tree GP constants

---
 xcsf/gp.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/xcsf/gp.c b/xcsf/gp.c
index e558a49..456aba3 100644
--- a/xcsf/gp.c
+++ b/xcsf/gp.c
@@ -527,6 +527,8 @@ tree_args_load(struct ArgsGPTree *args, FILE *fp)
     s += fread(&args->n_constants, sizeof(int), 1, fp);
     s += fread(&args->init_depth, sizeof(int), 1, fp);
     s += fread(&args->max_len, sizeof(int), 1, fp);
+    free(args->constants);
+    args->constants = malloc(sizeof(double) * args->n_constants);
     s += fread(args->constants, sizeof(double), args->n_constants, fp);
     return s;
 }
-- 
2.43.0


From da3e9bc892ff075518028292b29cebad6388c2ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:52:58 +0000
Subject: [PATCH 20/41] fix: loaded LSTM layers keep their activation functions

---
 xcsf/neural_layer_lstm.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/xcsf/neural_layer_lstm.c b/xcsf/neural_layer_lstm.c
index 86f32c1..ef35e33 100644
--- a/xcsf/neural_layer_lstm.c
+++ b/xcsf/neural_layer_lstm.c
@@ -674,6 +674,8 @@ neural_layer_lstm_save(const struct Layer *l, FILE *fp)
     s += fwrite(&l->decay, sizeof(double), 1, fp);
     s += fwrite(&l->max_neuron_grow, sizeof(int), 1, fp);
     s += fwrite(&l->options, sizeof(uint32_t), 1, fp);
+    s += fwrite(&l->function, sizeof(int), 1, fp);
+    s += fwrite(&l->recurrent_function, sizeof(int), 1, fp);
     s += fwrite(l->mu, sizeof(double), N_MU, fp);
     s += fwrite(l->state, sizeof(double), l->n_outputs, fp);
     s += fwrite(l->prev_state, sizeof(double), l->n_outputs, fp);
@@ -721,6 +723,8 @@ neural_layer_lstm_load(struct Layer *l, FILE *fp)
     s += fread(&l->decay, sizeof(double), 1, fp);
     s += fread(&l->max_neuron_grow, sizeof(int), 1, fp);
     s += fread(&l->options, sizeof(uint32_t), 1, fp);
+    s += fread(&l->function, sizeof(int), 1, fp);
+    s += fread(&l->recurrent_function, sizeof(int), 1, fp);
     l->out_w = l->n_outputs;
     l->out_c = 1;
     l->out_h = 1;
-- 
2.43.0


From 021366adf452c42401158b58f6b85e2bbbffab08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:52:58 +0000
Subject: [PATCH 21/41] fix: loaded recurrent layers are usable and keep their
 memory

---
 xcsf/neural_layer_recurrent.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/xcsf/neural_layer_recurrent.c b/xcsf/neural_layer_recurrent.c
index abcf415..43b19e5 100644
--- a/xcsf/neural_layer_recurrent.c
+++ b/xcsf/neural_layer_recurrent.c
@@ -507,6 +507,7 @@ neural_layer_recurrent_save(const struct Layer *l, FILE *fp)
     s += layer_save(l->input_layer, fp);
     s += layer_save(l->self_layer, fp);
     s += layer_save(l->output_layer, fp);
+    s += fwrite(l->output_layer->output, sizeof(double), l->n_outputs, fp);
     return s;
 }
 
@@ -538,5 +539,10 @@ neural_layer_recurrent_load(struct Layer *l, FILE *fp)
     s += layer_load(l->input_layer, fp);
     s += layer_load(l->self_layer, fp);
     s += layer_load(l->output_layer, fp);
+    s += fread(l->output_layer->output, sizeof(double), l->n_outputs, fp);
+    l->output = l->output_layer->output;
+    l->delta = l->output_layer->delta;
+    set_layer_n_weights(l);
+    set_layer_n_biases(l);
     return s;
 }
-- 
2.43.0


From 14fb889a98ba6cc8026903e091dc7e444cdc8781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:52:58 +0000
Subject: [PATCH 22/41] fix: recurrent layers evolve their learning rate within
 its range

Also give neurons added by mutation an initial state and copies their
weight counts.
---
 xcsf/neural_layer_recurrent.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/xcsf/neural_layer_recurrent.c b/xcsf/neural_layer_recurrent.c
index 43b19e5..9c3790e 100644
--- a/xcsf/neural_layer_recurrent.c
+++ b/xcsf/neural_layer_recurrent.c
@@ -66,6 +66,8 @@ realloc_layer_arrays(struct Layer *l)
     layer_guard_outputs(l);
     l->state = realloc(l->state, l->n_outputs * sizeof(double));
     l->prev_state = realloc(l->prev_state, l->n_outputs * sizeof(double));
+    memset(l->state, 0, l->n_outputs * sizeof(double));
+    memset(l->prev_state, 0, l->n_outputs * sizeof(double));
 }
 
 /**
@@ -253,6 +255,8 @@ neural_layer_recurrent_init(struct Layer *l, const struct ArgsLayer *args)
     l->out_w = l->n_outputs;
     l->out_c = 1;
     l->out_h = 1;
+    l->eta_max = args->eta;
+    l->eta_min = args->eta_min;
     struct ArgsLayer *cargs = layer_args_copy(args);
     cargs->type = CONNECTED; // recurrent layer is composed of 3 connected
     cargs->function = LINEAR; // input layer and self layer are linear
@@ -300,6 +304,10 @@ neural_layer_recurrent_copy(const struct Layer *src)
     l->out_h = src->out_h;
     l->n_active = src->n_active;
     l->eta = src->eta;
+    l->eta_max = src->eta_max;
+    l->eta_min = src->eta_min;
+    l->n_weights = src->n_weights;
+    l->n_biases = src->n_biases;
     l->input_layer = layer_copy(src->input_layer);
     l->self_layer = layer_copy(src->self_layer);
     l->output_layer = layer_copy(src->output_layer);
@@ -542,6 +550,8 @@ neural_layer_recurrent_load(struct Layer *l, FILE *fp)
     s += fread(l->output_layer->output, sizeof(double), l->n_outputs, fp);
     l->output = l->output_layer->output;
     l->delta = l->output_layer->delta;
+    l->eta_max = l->input_layer->eta_max;
+    l->eta_min = l->input_layer->eta_min;
     set_layer_n_weights(l);
     set_layer_n_biases(l);
     return s;
-- 
2.43.0


From 2da0fba1770bc74087036f12a49c596879dbbd9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:52:58 +0000
Subject: [PATCH 23/41] fix: propagate the gradient through non-trained
 convolutional layers

---
 xcsf/neural_layer_convolutional.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xcsf/neural_layer_convolutional.c b/xcsf/neural_layer_convolutional.c
index 0161341..5bd5006 100644
--- a/xcsf/neural_layer_convolutional.c
+++ b/xcsf/neural_layer_convolutional.c
@@ -301,8 +301,8 @@ neural_layer_convolutional_backward(const struct Layer *l,
     const int m = l->n_filters;
     const int n = l->size * l->size * l->channels;
     const int k = l->out_w * l->out_h;
+    neural_gradient_array(l->state, l->delta, l->n_outputs, l->function);
     if (l->options & LAYER_SGD_WEIGHTS) {
-        neural_gradient_array(l->state, l->delta, l->n_outputs, l->function);
         for (int i = 0; i < l->n_biases; ++i) {
             l->bias_updates[i] += blas_sum(l->delta + k * i, k);
         }
-- 
2.43.0


From b84b4e944cddb43c9bceaa4e8c3492faa2baaf50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:53:07 +0000
Subject: [PATCH 24/41] fix: 1x1 convolutions with stride or padding read the
 right inputs

---
 xcsf/neural_layer_convolutional.c | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/xcsf/neural_layer_convolutional.c b/xcsf/neural_layer_convolutional.c
index 5bd5006..7313897 100644
--- a/xcsf/neural_layer_convolutional.c
+++ b/xcsf/neural_layer_convolutional.c
@@ -42,6 +42,17 @@ static const int MU_TYPE[N_MU] = {
     SAM_RATE_SELECT //!< Activation function mutation rate
 };
 
+/**
+ * @brief Returns whether the input can be used directly as the columns.
+ * @param [in] l A convolutional layer.
+ * @return Whether the kernel is applied to every single input pixel.
+ */
+static bool
+is_pointwise(const struct Layer *l)
+{
+    return l->size == 1 && l->stride == 1 && l->pad == 0;
+}
+
 /**
  * @brief Returns the output height of a convolutional layer.
  * @param [in] l A convolutional layer.
@@ -270,7 +281,7 @@ neural_layer_convolutional_forward(const struct Layer *l, const struct Net *net,
     double *b = l->temp;
     double *c = l->state;
     memset(l->state, 0, sizeof(double) * l->n_outputs);
-    if (l->size == 1) {
+    if (is_pointwise(l)) {
         blas_gemm(0, 0, m, n, k, 1, a, k, input, n, 1, c, n);
     } else {
         im2col(input, l->channels, l->height, l->width, l->size, l->stride,
@@ -309,7 +320,7 @@ neural_layer_convolutional_backward(const struct Layer *l,
         const double *a = l->delta;
         double *b = l->temp;
         double *c = l->weight_updates;
-        if (l->size == 1) {
+        if (is_pointwise(l)) {
             blas_gemm(0, 1, m, n, k, 1, a, k, input, k, 1, c, n);
         } else {
             im2col(input, l->channels, l->height, l->width, l->size, l->stride,
@@ -321,11 +332,11 @@ neural_layer_convolutional_backward(const struct Layer *l,
         const double *a = l->weights;
         const double *b = l->delta;
         double *c = l->temp;
-        if (l->size == 1) {
+        if (is_pointwise(l)) {
             c = delta;
         }
         blas_gemm(1, 0, n, k, m, 1, a, n, b, k, 0, c, k);
-        if (l->size != 1) {
+        if (!is_pointwise(l)) {
             col2im(l->temp, l->channels, l->height, l->width, l->size,
                    l->stride, l->pad, delta);
         }
-- 
2.43.0


From 38acf68af8c1c8b314d3abbf0755f65334f3f866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:03:49 +0000
Subject: [PATCH 25/41] fix: exported graph rules with actions can be imported
 again

---
 xcsf/cl.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/xcsf/cl.c b/xcsf/cl.c
index 95352c0..d64ea9c 100644
--- a/xcsf/cl.c
+++ b/xcsf/cl.c
@@ -613,7 +613,9 @@ cl_json_import(const struct XCSF *xcsf, struct Cl *c, const cJSON *json)
     cl_json_import_properties(c, json);
     cl_json_import_current(xcsf, c, json);
     const cJSON *item = cJSON_GetObjectItem(json, "action");
-    if (item != NULL) {
+    // self-contained rules hold their action within the condition
+    if (item != NULL && xcsf->cond->type != RULE_TYPE_DGP &&
+        xcsf->cond->type != RULE_TYPE_NEURAL) {
         act_json_import(xcsf, c, item);
     }
     item = cJSON_GetObjectItem(json, "prediction");
-- 
2.43.0


From 1b7eaf75d6d2e7386b8f3036b1a72907d34a763a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:22:32 +0000
Subject: [PATCH 26/41] fix: data without rows is rejected

fit() and score() on empty arrays read past their end.
---
 xcsf/pybind_wrapper.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/xcsf/pybind_wrapper.cpp b/xcsf/pybind_wrapper.cpp
index 3b5552d..194bf5b 100644
--- a/xcsf/pybind_wrapper.cpp
+++ b/xcsf/pybind_wrapper.cpp
@@ -358,6 +358,9 @@ class XCS
         if (buf_x.shape[0] != buf_y.shape[0]) {
             throw std::invalid_argument("X and Y n_samples are not equal");
         }
+        if (buf_x.shape[0] < 1) {
+            throw std::invalid_argument("X and Y must have at least one row");
+        }
         const int x_dim = buf_x.ndim > 1 ? buf_x.shape[1] : 1;
         const int y_dim = buf_y.ndim > 1 ? buf_y.shape[1] : 1;
         if (x_dim != xcs.x_dim) {
-- 
2.43.0


From 4e702b6b3529941c18a80b485cbfc29ef99ee07f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:38:57 +0000
Subject: [PATCH 27/41] fix: the evaluation position of a new tree is
 initialised

---
 xcsf/gp.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/xcsf/gp.c b/xcsf/gp.c
index 456aba3..e6eedfc 100644
--- a/xcsf/gp.c
+++ b/xcsf/gp.c
@@ -102,6 +102,7 @@ void
 tree_rand(struct GPTree *gp, const struct ArgsGPTree *args)
 {
     gp->tree = malloc(sizeof(int) * args->max_len);
+    gp->pos = 0;
     gp->len = 0;
     while (gp->len < 1) {
         gp->len = tree_grow(args, gp->tree, 0, args->max_len, args->init_depth);
-- 
2.43.0


From c503e35c84f330f44b76ea9c94fe351cd0e4e4ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:38:57 +0000
Subject: [PATCH 28/41] fix: runs do not depend on the order in which
 parameters are given

---
 xcsf/param.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/xcsf/param.c b/xcsf/param.c
index b7ab577..6f6d673 100644
--- a/xcsf/param.c
+++ b/xcsf/param.c
@@ -491,6 +491,11 @@ param_json_import(struct XCSF *xcsf, const char *json_str)
         exit(EXIT_FAILURE);
     }
     param_json_import_n_inputs(xcsf);
+    // seed again: importing may have drawn random numbers, depending on order
+    const cJSON *seed = cJSON_GetObjectItem(json, "random_state");
+    if (cJSON_IsNumber(seed)) {
+        catch_error(param_set_random_state(xcsf, seed->valueint));
+    }
     cJSON_Delete(json);
 }
 
-- 
2.43.0


From 65dc378345bfe46d3b0d516651cce02d3e98e9c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:44:21 +0000
Subject: [PATCH 29/41] fix: setting parameters keeps the tree constants
 existing rules refer to

---
 xcsf/cond_gp.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/xcsf/cond_gp.c b/xcsf/cond_gp.c
index ae9de05..a1449b3 100644
--- a/xcsf/cond_gp.c
+++ b/xcsf/cond_gp.c
@@ -273,8 +273,13 @@ cond_gp_param_json_export(const struct XCSF *xcsf)
 char *
 cond_gp_param_json_import(struct XCSF *xcsf, cJSON *json)
 {
-    char *ret = tree_args_json_import(xcsf->cond->targs, json);
-    tree_args_init_constants(xcsf->cond->targs);
+    struct ArgsGPTree *args = xcsf->cond->targs;
+    const struct ArgsGPTree prev = *args;
+    char *ret = tree_args_json_import(args, json);
+    if (args->n_constants != prev.n_constants || args->min != prev.min ||
+        args->max != prev.max) {
+        tree_args_init_constants(args); // existing trees refer to the constants
+    }
     return ret;
 }
 
-- 
2.43.0


From 4dec216911142b1533a53afd123942041251024b Mon Sep 17 00:00:00 2001
From: verifier <a@b>
Date: Wed, 18 Nov 2026 00:31:36 +0000
Subject: [PATCH 30/41] fix: keep the weight counts of recurrent layers when
 resized or randomised

---
 xcsf/neural_layer_lstm.c      | 1 +
 xcsf/neural_layer_recurrent.c | 5 +++--
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/xcsf/neural_layer_lstm.c b/xcsf/neural_layer_lstm.c
index ef35e33..791d18a 100644
--- a/xcsf/neural_layer_lstm.c
+++ b/xcsf/neural_layer_lstm.c
@@ -407,6 +407,7 @@ neural_layer_lstm_rand(struct Layer *l)
     layer_rand(l->wi);
     layer_rand(l->wg);
     layer_rand(l->wo);
+    set_layer_n_active(l);
 }
 
 /**
diff --git a/xcsf/neural_layer_recurrent.c b/xcsf/neural_layer_recurrent.c
index 9c3790e..f83d5a4 100644
--- a/xcsf/neural_layer_recurrent.c
+++ b/xcsf/neural_layer_recurrent.c
@@ -345,6 +345,7 @@ neural_layer_recurrent_rand(struct Layer *l)
     layer_rand(l->input_layer);
     layer_rand(l->self_layer);
     layer_rand(l->output_layer);
+    set_layer_n_active(l);
 }
 
 /**
@@ -409,8 +410,8 @@ neural_layer_recurrent_resize(struct Layer *l, const struct Layer *prev)
 {
     layer_resize(l->input_layer, prev);
     l->n_inputs = l->input_layer->n_inputs;
-    l->n_active = l->input_layer->n_active + l->self_layer->n_active +
-        l->output_layer->n_active;
+    set_layer_n_weights(l);
+    set_layer_n_active(l);
 }
 
 /**
-- 
2.43.0


From c3eed78a3c32fb321bc4d79063d4cee16e3fc33f Mon Sep 17 00:00:00 2001
From: verifier <a@b>
Date: Wed, 18 Nov 2026 00:32:41 +0000
Subject: [PATCH 31/41] fix: update the output width of a connected layer that
 grows or shrinks

---
 xcsf/neural_layer_connected.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/xcsf/neural_layer_connected.c b/xcsf/neural_layer_connected.c
index 07b9f36..eeaf8b9 100644
--- a/xcsf/neural_layer_connected.c
+++ b/xcsf/neural_layer_connected.c
@@ -300,6 +300,7 @@ neural_layer_connected_mutate(struct Layer *l)
         const int n = layer_mutate_neurons(l, l->mu[1]);
         if (n != 0) {
             layer_add_neurons(l, n);
+            l->out_w = l->n_outputs;
             mod = true;
         }
     }
-- 
2.43.0


From 7d882b708eca63dc90b1352a8cfc3af5bb3c8996 Mon Sep 17 00:00:00 2001
From: verifier <a@b>
Date: Wed, 18 Nov 2026 00:32:41 +0000
Subject: [PATCH 32/41] fix: dropout passes errors through when its inputs were
 passed through

---
 xcsf/neural_layer_dropout.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/xcsf/neural_layer_dropout.c b/xcsf/neural_layer_dropout.c
index 79755c0..d2d6789 100644
--- a/xcsf/neural_layer_dropout.c
+++ b/xcsf/neural_layer_dropout.c
@@ -152,11 +152,12 @@ void
 neural_layer_dropout_backward(const struct Layer *l, const struct Net *net,
                               const double *input, double *delta)
 {
-    (void) net;
     (void) input;
     if (delta) {
         for (int i = 0; i < l->n_inputs; ++i) {
-            if (l->state[i] < l->probability) {
+            if (!net->train) { // inputs were passed through
+                delta[i] += l->delta[i];
+            } else if (l->state[i] < l->probability) {
                 delta[i] = 0;
             } else {
                 delta[i] += l->delta[i] * l->scale;
-- 
2.43.0


From 299213f2b76e13daa0ae788ce7d54d91045cc157 Mon Sep 17 00:00:00 2001
From: verifier <a@b>
Date: Wed, 18 Nov 2026 00:35:37 +0000
Subject: [PATCH 33/41] fix: check the size of a maze before storing it and
 keep an unterminated last row

---
 xcsf/env_maze.c | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/xcsf/env_maze.c b/xcsf/env_maze.c
index e848dbb..132bbb8 100644
--- a/xcsf/env_maze.c
+++ b/xcsf/env_maze.c
@@ -116,15 +116,20 @@ env_maze_init(struct XCSF *xcsf, const char *filename)
             env->xsize = x;
             x = 0;
         } else {
+            // check maximum maze size not exceeded
+            if (x >= MAX_SIZE || y >= MAX_SIZE) {
+                printf("Maze too big. Max size = [%d,%d]\n", MAX_SIZE,
+                       MAX_SIZE);
+                fclose(fp);
+                exit(EXIT_FAILURE);
+            }
             env->maze[y][x] = (char) c;
             ++x;
         }
-        // check maximum maze size not exceeded
-        if (x > MAX_SIZE || y > MAX_SIZE) {
-            printf("Maze too big. Max size = [%d,%d]\n", MAX_SIZE, MAX_SIZE);
-            fclose(fp);
-            exit(EXIT_FAILURE);
-        }
+    }
+    if (x > 0) { // last row not terminated by a newline
+        ++y;
+        env->xsize = x;
     }
     // check if EOF came from an end-of-file or an error
     if (ferror(fp)) {
-- 
2.43.0


From d6cfb18fe828b31be4ba527cb03a5a3f21b8590b Mon Sep 17 00:00:00 2001
From: verifier <a@b>
Date: Wed, 18 Nov 2026 00:36:33 +0000
Subject: [PATCH 34/41] fix: read csv lines of any length

---
 xcsf/env_csv.c | 48 ++++++++++++++++++++++++++++++++++++++----------
 1 file changed, 38 insertions(+), 10 deletions(-)

diff --git a/xcsf/env_csv.c b/xcsf/env_csv.c
index 166bf42..6aee284 100644
--- a/xcsf/env_csv.c
+++ b/xcsf/env_csv.c
@@ -25,10 +25,34 @@
 #include "param.h"
 
 #define MAX_ROWS (100000) //!< Maximum number of instances
-#define MAX_COLS (200) //!< Maximum line length
+#define BUFF_LEN (256) //!< Initial length of the line buffer
 #define MAX_NAME (200) //!< Maximum file name length
 #define DELIM (",") //!< File delimiter
 
+/**
+ * @brief Reads the next line of a csv file.
+ * @param [in] fin The csv file.
+ * @param [in,out] line The line buffer, enlarged as necessary.
+ * @param [in,out] len The length of the line buffer.
+ * @return Whether a line was read.
+ */
+static bool
+env_csv_line(FILE *fin, char **line, size_t *len)
+{
+    size_t n = 0;
+    do {
+        if (*len < n + BUFF_LEN) {
+            *len = 2 * n + BUFF_LEN;
+            *line = realloc(*line, sizeof(char) * *len);
+        }
+        if (fgets(*line + n, (int) (*len - n), fin) == NULL) {
+            break;
+        }
+        n += strlen(*line + n);
+    } while ((*line)[n - 1] != '\n');
+    return n > 0;
+}
+
 /**
  * @brief Returns the number of samples in a csv file.
  * @param [in] fin The csv file.
@@ -38,10 +62,12 @@ static int
 env_csv_samples(FILE *fin)
 {
     int n_samples = 0;
-    char line[MAX_COLS];
-    while (fgets(line, MAX_COLS, fin) != NULL) {
+    char *line = NULL;
+    size_t len = 0;
+    while (env_csv_line(fin, &line, &len)) {
         ++n_samples;
     }
+    free(line);
     return n_samples;
 }
 
@@ -55,17 +81,17 @@ env_csv_dim(FILE *fin)
 {
     rewind(fin);
     int n_dim = 0;
-    char line[MAX_COLS];
+    char *line = NULL;
+    size_t len = 0;
     char *saveptr = NULL;
-    if (fgets(line, MAX_COLS, fin) != NULL) {
+    if (env_csv_line(fin, &line, &len)) {
         const char *ptok = strtok_r(line, DELIM, &saveptr);
         while (ptok != NULL) {
-            if (strnlen(ptok, MAX_COLS) > 0) {
-                ++n_dim;
-            }
+            ++n_dim;
             ptok = strtok_r(NULL, DELIM, &saveptr);
         }
     }
+    free(line);
     return n_dim;
 }
 
@@ -82,12 +108,13 @@ env_csv_read_data(FILE *fin, double **data, const int n_samples,
 {
     rewind(fin);
     *data = malloc(sizeof(double) * n_dim * n_samples);
-    char line[MAX_COLS];
+    char *line = NULL;
+    size_t len = 0;
     const char *str = NULL;
     char *saveptr = NULL;
     char *endptr = NULL;
     int i = 0;
-    while (fgets(line, MAX_COLS, fin) != NULL && i < n_samples) {
+    while (i < n_samples && env_csv_line(fin, &line, &len)) {
         str = strtok_r(line, DELIM, &saveptr);
         (*data)[i * n_dim] = strtod(str, &endptr);
         for (int j = 1; j < n_dim; ++j) {
@@ -96,6 +123,7 @@ env_csv_read_data(FILE *fin, double **data, const int n_samples,
         }
         ++i;
     }
+    free(line);
 }
 
 /**
-- 
2.43.0


From 12ded3fe4aec72556be4cc459e866681801dda2a Mon Sep 17 00:00:00 2001
From: verifier <a@b>
Date: Wed, 18 Nov 2026 00:36:33 +0000
Subject: [PATCH 35/41] fix: room for the terminator of a configuration file

---
 xcsf/config.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xcsf/config.c b/xcsf/config.c
index fc07365..0b8e1c8 100644
--- a/xcsf/config.c
+++ b/xcsf/config.c
@@ -57,7 +57,7 @@ config_read(struct XCSF *xcsf, const char *filename)
     fseek(f, 0, SEEK_END);
     const long len = ftell(f);
     fseek(f, 0, SEEK_SET);
-    char file_buff[len];
+    char file_buff[len + 1];
     file_buff[0] = '\0';
     char line_buff[MAXLEN];
     while (!feof(f)) {
-- 
2.43.0


From eb1e9310982fb85cc134c480c819f86fc1b5702e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:27 +0000
Subject: [PATCH 36/41] fix: neural_print() leaked the printed string

---
 xcsf/neural.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/xcsf/neural.c b/xcsf/neural.c
index d345b6e..fd96068 100644
--- a/xcsf/neural.c
+++ b/xcsf/neural.c
@@ -394,7 +394,9 @@ neural_outputs(const struct Net *net)
 void
 neural_print(const struct Net *net, const bool print_weights)
 {
-    printf("%s\n", neural_json_export(net, print_weights));
+    char *json_str = neural_json_export(net, print_weights);
+    printf("%s\n", json_str);
+    free(json_str);
 }
 
 /**
-- 
2.43.0


From 7ecfefe5e1c2f6ff64c21b84f1773aa3c795a64b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:04 +0000
Subject: [PATCH 37/41] fix: predict() leaked its output buffer

---
 xcsf/pybind_wrapper.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/xcsf/pybind_wrapper.cpp b/xcsf/pybind_wrapper.cpp
index 194bf5b..cb5364c 100644
--- a/xcsf/pybind_wrapper.cpp
+++ b/xcsf/pybind_wrapper.cpp
@@ -615,12 +615,12 @@ class XCS
         }
         const int n_samples = buf_x.shape[0];
         const double *input = reinterpret_cast<double *>(buf_x.ptr);
-        double *output =
-            (double *) malloc(sizeof(double) * n_samples * xcs.pa_size);
+        py::array_t<double> output(
+            std::vector<ptrdiff_t>{ n_samples, xcs.pa_size });
         set_cover(cover);
-        xcs_supervised_predict(&xcs, input, output, n_samples, xcs.cover);
-        return py::array_t<double>(
-            std::vector<ptrdiff_t>{ n_samples, xcs.pa_size }, output);
+        xcs_supervised_predict(&xcs, input, output.mutable_data(), n_samples,
+                               xcs.cover);
+        return output;
     }
 
     /**
-- 
2.43.0


From b587cbe38aba87c0a1ca9275ec0989c21dfede0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:48 +0000
Subject: [PATCH 38/41] fix: json() leaked the exported string

---
 xcsf/pybind_wrapper.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/xcsf/pybind_wrapper.cpp b/xcsf/pybind_wrapper.cpp
index cb5364c..8ae176f 100644
--- a/xcsf/pybind_wrapper.cpp
+++ b/xcsf/pybind_wrapper.cpp
@@ -820,12 +820,15 @@ class XCS
      * @param [in] prediction Whether to return the prediction.
      * @return String encoded in json format.
      */
-    const char *
+    std::string
     json_export(const bool condition, const bool action, const bool prediction)
     {
         if (xcs.pset.list != NULL) {
-            return clset_json_export(&xcs, &xcs.pset, condition, action,
-                                     prediction);
+            char *json_str = clset_json_export(&xcs, &xcs.pset, condition,
+                                               action, prediction);
+            std::string result(json_str);
+            free(json_str);
+            return result;
         }
         return "null";
     }
-- 
2.43.0


From 3351903bfa8bc14ecb38419a5d67bcc28bb4b2c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:01 +0000
Subject: [PATCH 39/41] fix: action networks see all inputs whatever the order
 parameters are given

param_json_import sets the number of inputs of condition and prediction
networks once all parameters are known, but left out action networks: given
before x_dim, an action network kept the previous (default 1) number of
inputs and ignored all but the first.
---
 xcsf/param.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/xcsf/param.c b/xcsf/param.c
index 6f6d673..920d2b0 100644
--- a/xcsf/param.c
+++ b/xcsf/param.c
@@ -432,7 +432,7 @@ param_json_import_prediction(struct XCSF *xcsf, cJSON *json)
 }
 
 /**
- * @brief Sets the number of inputs to conditions and predictions.
+ * @brief Sets the number of inputs to conditions, predictions, and actions.
  * @param [in,out] xcsf The XCSF data structure.
  */
 static void
@@ -446,6 +446,9 @@ param_json_import_n_inputs(struct XCSF *xcsf)
     if (xcsf->pred->largs != NULL) {
         xcsf->pred->largs->n_inputs = xcsf->x_dim;
     }
+    if (xcsf->act->largs != NULL) {
+        xcsf->act->largs->n_inputs = xcsf->x_dim;
+    }
 }
 
 /**
-- 
2.43.0


From 7e3f980e723c1b4fac814bd0964b6892db65b779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:33:14 +0000
Subject: [PATCH 40/41] fix: insert a layer below the only layer of a network

neural_insert() tested whether the new element was the tail after
relinking, so the test never held and the insertion dereferenced NULL:
xcsf_pred_expand() crashed for prediction networks of one layer.
---
 xcsf/neural.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xcsf/neural.c b/xcsf/neural.c
index fd96068..6dd21e0 100644
--- a/xcsf/neural.c
+++ b/xcsf/neural.c
@@ -120,7 +120,7 @@ neural_insert(struct Net *net, struct Layer *l, const int pos)
         } else {
             new->next = iter->next;
             iter->next = new;
-            if (iter->next == NULL) { // new tail
+            if (new->next == NULL) { // new tail
                 net->tail = new;
                 net->n_inputs = l->n_inputs;
             } else { // middle
-- 
2.43.0


From a6f74068d0fcf7cfa2532c62aa9a8ba372ba258c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:33:14 +0000
Subject: [PATCH 41/41] fix: rules created after ae_to_classifier get networks
 with class outputs

xcsf_ae_to_classifier() changed y_dim and the networks of the existing
rules, but not the layer arguments used for new ones: rules covered (or
initialised) later had networks with the previous number of outputs, and
training or copying them read out of bounds.
---
 xcsf/pred_neural.c | 70 ++++++++++++++++++++++++++++++++++++----------
 xcsf/pred_neural.h |  3 ++
 xcsf/xcsf.c        |  1 +
 3 files changed, 60 insertions(+), 14 deletions(-)

diff --git a/xcsf/pred_neural.c b/xcsf/pred_neural.c
index 5a016a3..73328d5 100644
--- a/xcsf/pred_neural.c
+++ b/xcsf/pred_neural.c
@@ -339,6 +339,30 @@ pred_neural_expand(const struct XCSF *xcsf, const struct Cl *c)
     neural_resize(net);
 }
 
+/**
+ * @brief Sets the parameters of the layer that outputs one value per class.
+ * @param [in] xcsf The XCSF data structure.
+ * @param [out] args The parameters to set.
+ */
+static void
+pred_neural_class_args(const struct XCSF *xcsf, struct ArgsLayer *args)
+{
+    const struct ArgsLayer *largs = xcsf->pred->largs;
+    layer_args_init(args);
+    args->type = CONNECTED;
+    args->function = LINEAR;
+    args->n_init = xcsf->y_dim;
+    args->n_max = xcsf->y_dim;
+    args->evolve_connect = largs->evolve_connect;
+    args->evolve_weights = largs->evolve_weights;
+    args->evolve_eta = largs->evolve_eta;
+    args->sgd_weights = largs->sgd_weights;
+    args->eta = largs->eta;
+    args->eta_min = largs->eta_min;
+    args->momentum = largs->momentum;
+    args->decay = largs->decay;
+}
+
 /**
  * @brief Removes prediction (decoder) layers and inserts softmax output layer.
  * @param [in] xcsf The XCSF data structure.
@@ -357,22 +381,9 @@ pred_neural_ae_to_classifier(const struct XCSF *xcsf, const struct Cl *c,
         neural_pop(net);
     }
     // add new softmax output
-    const struct ArgsLayer *largs = xcsf->pred->largs;
     struct ArgsLayer new;
-    layer_args_init(&new);
-    new.type = CONNECTED;
-    new.function = LINEAR;
+    pred_neural_class_args(xcsf, &new);
     new.n_inputs = net->n_outputs;
-    new.n_init = xcsf->y_dim;
-    new.n_max = xcsf->y_dim;
-    new.evolve_connect = largs->evolve_connect;
-    new.evolve_weights = largs->evolve_weights;
-    new.evolve_eta = largs->evolve_eta;
-    new.sgd_weights = largs->sgd_weights;
-    new.eta = largs->eta;
-    new.eta_min = largs->eta_min;
-    new.momentum = largs->momentum;
-    new.decay = largs->decay;
     l = layer_init(&new);
     neural_push(net, l);
     new.type = SOFTMAX;
@@ -382,6 +393,37 @@ pred_neural_ae_to_classifier(const struct XCSF *xcsf, const struct Cl *c,
     neural_push(net, l);
 }
 
+/**
+ * @brief Makes the networks of new classifiers output one value per class.
+ * @param [in] xcsf The XCSF data structure.
+ * @param [in] n_del Number of (decoder) layers to remove.
+ */
+void
+pred_neural_param_ae_to_classifier(const struct XCSF *xcsf, const int n_del)
+{
+    struct ArgsLayer *head = xcsf->pred->largs;
+    if (xcsf->pred->type != PRED_TYPE_NEURAL || head == NULL) {
+        return;
+    }
+    // remove decoder layers
+    for (int i = 0; i < n_del && head->next != NULL; ++i) {
+        struct ArgsLayer *iter = head;
+        while (iter->next->next != NULL) {
+            iter = iter->next;
+        }
+        layer_args_free(&iter->next);
+    }
+    // add new softmax output
+    struct ArgsLayer *tail = layer_args_tail(head);
+    tail->next = malloc(sizeof(struct ArgsLayer));
+    pred_neural_class_args(xcsf, tail->next);
+    tail = tail->next;
+    tail->next = malloc(sizeof(struct ArgsLayer));
+    layer_args_init(tail->next);
+    tail->next->type = SOFTMAX;
+    tail->next->scale = 1;
+}
+
 /**
  * @brief Returns a json formatted string representation of a neural prediction.
  * @param [in] xcsf XCSF data structure.
diff --git a/xcsf/pred_neural.h b/xcsf/pred_neural.h
index c0d4fd2..b98df03 100644
--- a/xcsf/pred_neural.h
+++ b/xcsf/pred_neural.h
@@ -100,6 +100,9 @@ void
 pred_neural_ae_to_classifier(const struct XCSF *xcsf, const struct Cl *c,
                              const int n_del);
 
+void
+pred_neural_param_ae_to_classifier(const struct XCSF *xcsf, const int n_del);
+
 char *
 pred_neural_json_export(const struct XCSF *xcsf, const struct Cl *c);
 
diff --git a/xcsf/xcsf.c b/xcsf/xcsf.c
index b0ea341..9a6ee8d 100644
--- a/xcsf/xcsf.c
+++ b/xcsf/xcsf.c
@@ -194,6 +194,7 @@ xcsf_ae_to_classifier(struct XCSF *xcsf, const int y_dim, const int n_del)
         iter->cl->time = xcsf->time;
         iter = iter->next;
     }
+    pred_neural_param_ae_to_classifier(xcsf, n_del); // rules created from now on
 }
 
 /**
-- 
2.43.0

