From 6ada0ffc6dc201570197d55a60fff2ba9f2a7ecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:08 +0000
Subject: [PATCH 01/64] fix: center the first window of the padded input at the
 first sample for odd window sizes

---
 sample/sms/sm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sample/sms/sm.py b/sample/sms/sm.py
index bc0b6cd..866944f 100644
--- a/sample/sms/sm.py
+++ b/sample/sms/sm.py
@@ -351,8 +351,8 @@ class SinusoidalModel(base.TransformerMixin, base.BaseEstimator):
       (array, int): The padded array and the initial padding length"""
     if not self.padded:
       return x, 0
-    a = (self.w.size + 1) // 2
-    b = self.w.size // 2
+    a = self.w.size // 2
+    b = (self.w.size + 1) // 2
     y = np.zeros(x.size + a + b)
     y[a:(a + x.size)] = x
     return y, a
-- 
2.43.0


From 0c9e123fca59d1a01fc25e16feedb606bc808161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:08 +0000
Subject: [PATCH 02/64] fix: no overlapping windows, instead of a negative
 number, for inputs shorter than a window

---
 sample/utils/dsp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sample/utils/dsp.py b/sample/utils/dsp.py
index ae93ee5..ab909e1 100644
--- a/sample/utils/dsp.py
+++ b/sample/utils/dsp.py
@@ -381,7 +381,7 @@ def n_windows(input_size: int, wsize: int, hop: Optional[int] = None) -> int:
     int: Number of windows"""
   if hop is None:
     hop = wsize
-  return 1 + (input_size - wsize) // hop
+  return max(0, 1 + (input_size - wsize) // hop)
 
 
 def overlapping_windows(a: np.ndarray,
-- 
2.43.0


From b61450e4850e05bf6a04b1bd01fca5ab40051870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:15 +0000
Subject: [PATCH 03/64] fix: accept None and any sequence as phases when
 resynthesising with a fitted model

---
 sample/sample.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sample/sample.py b/sample/sample.py
index 9125851..39ab8fd 100644
--- a/sample/sample.py
+++ b/sample/sample.py
@@ -307,8 +307,9 @@ class SAMPLE(base.RegressorMixin, base.BaseEstimator):
       else:
         n_modes = self.max_n_modes
     m_ord = self.mode_argsort_(order=order, reverse=reverse)[:n_modes]
-    if "phases" in kwargs and not isinstance(kwargs["phases"], str):
-      kwargs["phases"] = kwargs["phases"][m_ord]
+    phases = kwargs.get("phases", None)
+    if phases is not None and not isinstance(phases, str):
+      kwargs["phases"] = np.asarray(phases)[m_ord]
     return additive_synth(x, self.freqs_[m_ord], self.decays_[m_ord],
                           self.amps_[m_ord], **kwargs)
 
-- 
2.43.0


From ab3b524d67a8c9ace2f43727e6cd34631bdbf835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:15 +0000
Subject: [PATCH 04/64] fix: export SDT parameters of a model without modes

---
 sample/sample.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sample/sample.py b/sample/sample.py
index 39ab8fd..002c2af 100644
--- a/sample/sample.py
+++ b/sample/sample.py
@@ -275,7 +275,7 @@ class SAMPLE(base.RegressorMixin, base.BaseEstimator):
         "fragmentSize": 1.0,
         "freqs": self.freqs_[m_ord].tolist(),
         "decays": self.decays_[m_ord].tolist(),
-        "weights": np.full(n_modes, 1 / n_modes).tolist(),
+        "weights": np.full(n_modes, 1 / max(n_modes, 1)).tolist(),
         "gains": [self.amps_[m_ord].tolist()],
     }
 
-- 
2.43.0


From db2806d617522d4904335d2aa0a0e2f23f1b4237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:15 +0000
Subject: [PATCH 05/64] fix: SDT parameters are JSON-serialisable for any
 integer type of max_n_modes

---
 sample/sample.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sample/sample.py b/sample/sample.py
index 002c2af..b6336da 100644
--- a/sample/sample.py
+++ b/sample/sample.py
@@ -271,7 +271,7 @@ class SAMPLE(base.RegressorMixin, base.BaseEstimator):
     return {
         "nModes": n_modes,
         "nPickups": 1,
-        "activeModes": active_modes,
+        "activeModes": int(active_modes),
         "fragmentSize": 1.0,
         "freqs": self.freqs_[m_ord].tolist(),
         "decays": self.decays_[m_ord].tolist(),
-- 
2.43.0


From 638586f55de0809731e43375f69919b9ade8c5c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:42 +0000
Subject: [PATCH 06/64] fix: discard modes with a negative decay, fitted on
 merged tracks that rise, whose resynthesis explodes

---
 sample/sample.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sample/sample.py b/sample/sample.py
index b6336da..e1fba24 100644
--- a/sample/sample.py
+++ b/sample/sample.py
@@ -197,7 +197,7 @@ class SAMPLE(base.RegressorMixin, base.BaseEstimator):
   @property
   def _valid_params_(self) -> Sequence[bool]:
     """Boolean array that indicates parameter validity"""
-    return np.isfinite(self.param_matrix_).all(axis=0)
+    return np.isfinite(self.param_matrix_).all(axis=0) & (self.decays_ > 0)
 
   @property
   def freqs_(self) -> np.ndarray:
-- 
2.43.0


From 94ba7e834b625a0c6cdc2db034706dcd6aac94db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:51 +0000
Subject: [PATCH 07/64] fix: concurrent appends to the shared intermediate
 storage can misplace or lose entries

---
 sample/_training.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/sample/_training.py b/sample/_training.py
index edd94f4..4580c3c 100644
--- a/sample/_training.py
+++ b/sample/_training.py
@@ -5,6 +5,7 @@ import functools
 import itertools
 import multiprocessing
 import multiprocessing.managers
+import threading
 from typing import Generator, Callable, Iterable, Optional
 
 import sample.utils
@@ -14,13 +15,26 @@ mp = multiprocessing
 utils = sample.utils
 
 
+class _LockedOptionalStorage(utils.learn.OptionalStorage):
+  """Storage to which many processes can append at the same time. The manager
+  serves every process from a different thread"""
+
+  def __init__(self, save: bool = False):
+    super().__init__(save=save)
+    self._lock = threading.Lock()
+
+  def append(self, key, value, index=None):
+    with self._lock:
+      return super().append(key, value, index=index)
+
+
 class _OptionalStorageManager(mp.managers.SyncManager):
   """Multiprocessing manager for :class:`sample.utils.learn.OptionalStorage`"""
 
 
 _OptionalStorageManager.register(
     "OptionalStorage",
-    utils.learn.OptionalStorage,
+    _LockedOptionalStorage,
     exposed=(
         *mp.managers.public_methods(utils.learn.OptionalStorage),
         "__getitem__",
-- 
2.43.0


From bfc80499c38214dedcdc8cb3a869120a9244f95d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:03 +0000
Subject: [PATCH 08/64] fix: parallel fit leaves stale or empty saved
 intermediates in the model

---
 sample/_training.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/sample/_training.py b/sample/_training.py
index 4580c3c..d2bbc26 100644
--- a/sample/_training.py
+++ b/sample/_training.py
@@ -157,10 +157,14 @@ def _wrap_as_managed(mp_manager: mp.managers.BaseManager,
   else:
     managed = getattr(mp_manager,
                       type(original).__name__)(**original.get_params())
+    is_storage = isinstance(original, utils.learn.OptionalStorage)
+    if is_storage:
+      original.reset()
     try:
       model.set_params(**{key: managed})
       yield
-      if isinstance(original, utils.learn.OptionalStorage):
-        original.cache_ = managed.get_state()
+      state = managed.get_state() if is_storage else None
+      if state:
+        original.cache_ = state
     finally:
       model.set_params(**{key: original})
-- 
2.43.0


From d2551d78fd029ad5234afabe9228e7ae32d7eaaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:03 +0000
Subject: [PATCH 09/64] fix: refitting SAMPLEBeatsDROP keeps the saved
 decisions about tracks of previous fits

---
 sample/beatsdrop/sample.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/sample/beatsdrop/sample.py b/sample/beatsdrop/sample.py
index ea21542..3531c1a 100644
--- a/sample/beatsdrop/sample.py
+++ b/sample/beatsdrop/sample.py
@@ -1,4 +1,5 @@
 """Module for integrating BeatsDROP in the SAMPLE model"""
+import functools
 from typing import Callable, Optional, Sequence, Tuple
 
 import numpy as np
@@ -84,6 +85,14 @@ class SAMPLEBeatsDROP(sample.sample.SAMPLE):
 
   _PARAM_MATRIX_NROWS: int = 4
 
+  @functools.wraps(sample.sample.SAMPLE.fit)
+  def fit(self, x: np.ndarray, y=None, **kwargs):
+    # Delete the decisions about the tracks of previous runs
+    decisor = kwargs.get("beat_decisor") or self.beat_decisor
+    if hasattr(decisor, "intermediate"):
+      decisor.intermediate.reset()
+    return super().fit(x, y, **kwargs)
+
   def _fit_track(self, i: int, t: np.ndarray,
                  track: dict) -> Sequence[Tuple[float, float, float, float]]:
     """Fit parameters for one track.
-- 
2.43.0


From b186f6e19d0387647de8d1a0f5f39e1662c90ee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:50 +0000
Subject: [PATCH 10/64] fix: a parallel fit that fails midway hides the error
 and leaves worker processes behind

---
 sample/_training.py | 35 ++++++++++++++++++-----------------
 1 file changed, 18 insertions(+), 17 deletions(-)

diff --git a/sample/_training.py b/sample/_training.py
index d2bbc26..b229c1a 100644
--- a/sample/_training.py
+++ b/sample/_training.py
@@ -81,11 +81,18 @@ def _progress_starmap(pool: mp.Pool,
   progress in the main thread. Avoids to hit some limitations imposed by tk"""
   results = [pool.apply_async(func, args=args, **kwargs) for args in iterable]
   not_ready = results.copy()
-  while not_ready:
-    fit_args.progress_update(len(results) - len(not_ready))
-    if refresh_time:
-      not_ready[0].wait(refresh_time)
-    not_ready = [r for r in not_ready if not r.ready()]
+  try:
+    while not_ready:
+      fit_args.progress_update(len(results) - len(not_ready))
+      if refresh_time:
+        not_ready[0].wait(refresh_time)
+      not_ready = [r for r in not_ready if not r.ready()]
+  except Exception:
+    # Don't leave tasks behind: they would outlive the managed instances that
+    # they refer to
+    for r in not_ready:
+      r.wait()
+    raise
   return (r.get() for r in results)
 
 
@@ -124,21 +131,15 @@ def sample_training_context(model: "sample.sample.SAMPLE",
                                    _fit_args=fit_args) as fit_args_:
         yield fit_args_
         return
-  if pool is None:
-    with mp.Pool(processes=n_jobs) as p:
-      with sample_training_context(model=model,
-                                   mp_manager=mp_manager,
-                                   pool=p,
-                                   n_jobs=n_jobs,
-                                   _fit_args=fit_args) as fit_args_:
-        yield fit_args_
-        return
   with _wrap_as_managed(mp_manager, model, "beat_decisor__intermediate",
                         "sinusoidal__intermediate"):
-    fit_args_ = copy.copy(fit_args)
-    if pool is not None:
+    # Managed instances should outlive the tasks that refer to them
+    with contextlib.ExitStack() as stack:
+      if pool is None:
+        pool = stack.enter_context(mp.Pool(processes=n_jobs))
+      fit_args_ = copy.copy(fit_args)
       fit_args_.starmap = functools.partial(_progress_starmap, pool, fit_args_)
-    yield fit_args_
+      yield fit_args_
 
 
 @contextlib.contextmanager
-- 
2.43.0


From bfe0327acfbb9a092ad39019e71aa9a3c4853841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:12 +0000
Subject: [PATCH 11/64] fix: copying or pickling a beat model recurses forever

---
 sample/beatsdrop/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sample/beatsdrop/__init__.py b/sample/beatsdrop/__init__.py
index 24fcd7b..330f027 100644
--- a/sample/beatsdrop/__init__.py
+++ b/sample/beatsdrop/__init__.py
@@ -180,7 +180,8 @@ class Beat:
                        {self._graph["t"]: t})
 
   def __getattr__(self, key: str):
-    if key in self._graph:
+    # Copies are inspected before they have a graph
+    if key in self.__dict__.get("_graph", ()):
       return functools.partial(self.compute, output=key)
     else:
       raise AttributeError(
-- 
2.43.0


From 9973ac1f8e6f3effc6161dc5094bb8bd39273bda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:09 +0000
Subject: [PATCH 12/64] fix: beats of a constant and a time-dependent parameter
 can be computed whichever comes first

---
 sample/utils/__init__.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/sample/utils/__init__.py b/sample/utils/__init__.py
index e72d420..5eb4345 100644
--- a/sample/utils/__init__.py
+++ b/sample/utils/__init__.py
@@ -255,7 +255,6 @@ class Numpy2Paragraph:
     self._d = {}
 
   @staticmethod
-  @numpy_out(dtype=float)
   def _semisum(x: np.ndarray,
                y: np.ndarray,
                out: Optional[np.ndarray] = None,
@@ -269,11 +268,9 @@ class Numpy2Paragraph:
 
     Returns:
       array: Half of the sum of the inputs"""
-    out = np.add(x, y, out=out, **kwargs)
-    return np.true_divide(out, 2, out=out, **kwargs)
+    return np.true_divide(np.add(x, y), 2, out=out, **kwargs)
 
   @staticmethod
-  @numpy_out(dtype=float)
   def _semidiff(x: np.ndarray,
                 y: np.ndarray,
                 out: Optional[np.ndarray] = None,
@@ -287,8 +284,7 @@ class Numpy2Paragraph:
 
     Returns:
       array: Half of the difference of the inputs"""
-    out = np.subtract(x, y, out=out, **kwargs)
-    return np.true_divide(out, 2, out=out, **kwargs)
+    return np.true_divide(np.subtract(x, y), 2, out=out, **kwargs)
 
   semisum = pg.op(NamedObject(_semisum.__get__(object), name="semisum"))  # pylint: disable=E1120
   semidiff = pg.op(NamedObject(_semidiff.__get__(object), name="semidiff"))  # pylint: disable=E1120
-- 
2.43.0


From 3955b8b6ae4ebea714e3b0532f081b7c878c624d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:20 +0000
Subject: [PATCH 13/64] fix: strided cochleagrams dropped the tail of shorter
 filters

---
 sample/psycho.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sample/psycho.py b/sample/psycho.py
index a660c9b..200df04 100644
--- a/sample/psycho.py
+++ b/sample/psycho.py
@@ -848,7 +848,7 @@ class GammatoneFilterbank:
         # Starting index
         x_begins = self._ir_size - ir_sizes - offsets_x
         # Input lengths
-        x_sizes = np.minimum(x_pad.size - x_begins, x.size + 2 * (ir_sizes - 1))
+        x_sizes = x.size + 2 * (ir_sizes - 1) + offsets_x
         # Output lengths
         n_wins = np.array([
             dsp_utils.n_windows(x_size, ir_size, hop=stride)
-- 
2.43.0


From f5b9aa5bb503f3cb4e3c7fa0f9dd0b6a3af21b09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:20 +0000
Subject: [PATCH 14/64] fix: slope of the quadratic ERB formula (Moore and
 Glasberg, 1983)

---
 sample/psycho.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sample/psycho.py b/sample/psycho.py
index 200df04..d217928 100644
--- a/sample/psycho.py
+++ b/sample/psycho.py
@@ -237,10 +237,10 @@ def erb(
 
   Returns:
     array: Equivalent recrangular bandwidths at the given frequencies"""
-  # 0.009339 * f
+  # 0.09339 * f
   tmp = np.empty_like(out)
-  np.multiply(0.009339, f, out=tmp)
-  # 6.23e-6 * f^2 + 0.009339 * f + 28.52
+  np.multiply(0.09339, f, out=tmp)
+  # 6.23e-6 * f^2 + 0.09339 * f + 28.52
   np.square(f, out=out)
   np.multiply(6.23e-6, out, out=out)
   np.add(out, tmp, out=out)
-- 
2.43.0


From c02858f102503641d8ef3a29aa451da74963b59c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:20 +0000
Subject: [PATCH 15/64] fix: gammatone envelope on integer time axes and long
 before its onset

---
 sample/psycho.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sample/psycho.py b/sample/psycho.py
index d217928..9d0068a 100644
--- a/sample/psycho.py
+++ b/sample/psycho.py
@@ -596,12 +596,14 @@ class GammatoneFilter:
 
     Returns:
       array: The IR envelope function evaluated at :data:`t`"""
-    tmp = np.empty_like(t)
+    tmp = np.empty_like(t, dtype=float)
     # t + t_c
-    t_ = np.empty_like(t)
+    t_ = np.empty_like(t, dtype=float)
     np.add(t, t_c, out=t_)
     # u(t + t_c)
     np.greater_equal(t_, 0, out=out)
+    # avoid overflow before the onset
+    np.maximum(t_, 0, out=t_)
     # u(t + t_c) * (t + t_c)^(n-1)
     np.power(t_, n - 1, out=tmp)
     np.multiply(tmp, out, out=out)
-- 
2.43.0


From f299ec2fc5356148e1a2857417fd564b13704501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:20 +0000
Subject: [PATCH 16/64] fix: infinite recursion when copying a gammatone
 filterbank

---
 sample/psycho.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/sample/psycho.py b/sample/psycho.py
index 9d0068a..d7eb040 100644
--- a/sample/psycho.py
+++ b/sample/psycho.py
@@ -755,11 +755,14 @@ class GammatoneFilterbank:
   def __getattr__(self, key: str):
     """If attribute is not found, try getting a tuple of attributes,
     one from each filter"""
-    try:
-      return tuple(getattr(f, key) for f in self)
-    except AttributeError:
-      pass
-    return super().__getattr__(key)
+    # Copies are inspected before they have filters
+    if "_filters" in self.__dict__:
+      try:
+        return tuple(getattr(f, key) for f in self)
+      except AttributeError:
+        pass
+    raise AttributeError(
+        f"'{type(self).__name__}' object has no attribute '{key}'")
 
   class PrecomputedIRBank:
     """Precomputed IR bank for a :class:`GammatoneFilterbank`
-- 
2.43.0


From c70016a32fbce11c66c3631676c18febf987628f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:20 +0000
Subject: [PATCH 17/64] fix: lp distance of integer and complex arrays

---
 sample/evaluation/metrics.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sample/evaluation/metrics.py b/sample/evaluation/metrics.py
index 3c58580..8599d88 100644
--- a/sample/evaluation/metrics.py
+++ b/sample/evaluation/metrics.py
@@ -21,9 +21,9 @@ def lp_distance(x, y, p: float = 1):
 
   Returns:
     float: The distance"""
-  tmp = np.empty_like(x)
-  np.subtract(x, y, out=tmp)
-  np.abs(tmp, out=tmp)
+  x, y = np.asarray(x), np.asarray(y)
+  # Integers could overflow, and the modulus of complex values is real
+  tmp = np.abs(np.subtract(x, y, dtype=np.result_type(x, y, float)))
   if p != 1:
     np.power(tmp, p, out=tmp)
   d = np.sum(tmp)
-- 
2.43.0


From becf17a07c5de96fd69b1a45d32676439d5329ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:20 +0000
Subject: [PATCH 18/64] fix: additive synthesis of a single time-step lost its
 dimension

---
 sample/sample.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sample/sample.py b/sample/sample.py
index e1fba24..e66f15e 100644
--- a/sample/sample.py
+++ b/sample/sample.py
@@ -376,4 +376,5 @@ def additive_synth(x,
   dec = col(x) @ (-2 / row(decays))
   np.exp(dec, out=dec)
   amp = col(amps)
-  return np.squeeze((dec * osc) @ amp)
+  # One value for every time step, even when there is only one
+  return np.reshape((dec * osc) @ amp, newshape=(-1,) if np.ndim(x) else ())
-- 
2.43.0


From c38ad13a6e8d7dce96afd04c79d79ce213924047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:54 +0000
Subject: [PATCH 19/64] fix: peak and range normalization of silence

---
 sample/utils/dsp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sample/utils/dsp.py b/sample/utils/dsp.py
index ab909e1..9911b3e 100644
--- a/sample/utils/dsp.py
+++ b/sample/utils/dsp.py
@@ -24,7 +24,7 @@ def normalize(
 
   Returns:
     array: Normalized array"""
-  return np.true_divide(x, np.abs(x).max(), out=out)
+  return np.true_divide(x, np.abs(x).max() or 1, out=out)
 
 
 @utils.function_variant(normalize, "rms")
@@ -56,7 +56,7 @@ def _normalize_range(x: np.ndarray,
   Returns:
     array: Normalized array"""
   np.subtract(x, np.min(x), out=out)
-  return np.true_divide(out, np.max(out), out=out)
+  return np.true_divide(out, np.max(out) or 1, out=out)
 
 
 @utils.numpy_out(dtype=float)
-- 
2.43.0


From e6cf321c13cc0e2d81a01101a3f987991b295b7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:54 +0000
Subject: [PATCH 20/64] fix: bin index of a scalar frequency

---
 sample/utils/dsp.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/sample/utils/dsp.py b/sample/utils/dsp.py
index 9911b3e..3189215 100644
--- a/sample/utils/dsp.py
+++ b/sample/utils/dsp.py
@@ -241,9 +241,7 @@ def f2bin(f: np.ndarray, nfft: int, fs: float = 1) -> np.ndarray:
 
   Returns:
     array: Bin indices"""
-  out = np.multiply(f, nfft / fs)
-  out = np.ceil(out, out=out)
-  return out.astype(int)
+  return np.ceil(np.multiply(f, nfft / fs)).astype(int)
 
 
 @utils.numpy_out(dtype=float)
-- 
2.43.0


From d600d3f29bab6ffb02b9c6ac49a6b7e85f264383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:19 +0000
Subject: [PATCH 21/64] fix: A-weighting in decibel ignored the output array

---
 sample/psycho.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sample/psycho.py b/sample/psycho.py
index d7eb040..bf31bb9 100644
--- a/sample/psycho.py
+++ b/sample/psycho.py
@@ -375,7 +375,8 @@ def a_weighting(f: float,
   Returns:
     array: A-weights"""
   if db:
-    return dsp_utils.a2db(a_weighting(f, db=False, out=out)) - _a_weight_1kHz_db
+    dsp_utils.a2db(a_weighting(f, db=False, out=out), out=out)
+    return np.subtract(out, _a_weight_1kHz_db, out=out)
   f2 = np.empty_like(out)
   np.square(f, out=f2)
   # f^2 + 107.7^2
-- 
2.43.0


From 2b21c44be584aadaf65d108ac8dece749c4ee4d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:19 +0000
Subject: [PATCH 22/64] fix: modal energy written over the decays

---
 sample/sample.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sample/sample.py b/sample/sample.py
index e66f15e..de3eef2 100644
--- a/sample/sample.py
+++ b/sample/sample.py
@@ -30,8 +30,8 @@ def modal_energy(a: np.ndarray,
   Returns:
     array: Energies"""
   # d * a^2 / 4
-  np.square(a, out=out)
-  np.multiply(out, d, out=out)
+  # Decays could be the output array
+  np.multiply(np.square(a), d, out=out)
   np.true_divide(out, 4, out=out)
   return out
 
-- 
2.43.0


From d662dc603eb2cbd71a40375ad021bc9efcb393f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:19 +0000
Subject: [PATCH 23/64] fix: gammatone wave function written over its time axis

---
 sample/psycho.py | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/sample/psycho.py b/sample/psycho.py
index bf31bb9..31fd2de 100644
--- a/sample/psycho.py
+++ b/sample/psycho.py
@@ -649,21 +649,15 @@ class GammatoneFilter:
 
     Returns:
       array: The wave function evaluated at :data:`t`"""
+    # cos(2pi * f * t + phi), the time axis could be the output array
+    osc = np.multiply(2 * np.pi * self.f, t, dtype=float) + self.phi
+    osc = np.exp(1j * osc) if analytic else np.cos(osc)
     out = self.envelope(t,
                         out=out,
                         **({
                             "dtype": complex
                         } if analytic and out is None else {}))
-    tmp = np.empty_like(out)
-    # cos(2pi * f * t + phi)
-    np.multiply(2 * np.pi * self.f, t, out=tmp)
-    np.add(tmp, self.phi, out=tmp)
-    if analytic:
-      np.multiply(1j, tmp, out=tmp)
-      np.exp(tmp, out=tmp)
-    else:
-      np.cos(tmp, out=tmp)
-    np.multiply(out, tmp, out=out)
+    np.multiply(out, osc, out=out)
     return out
 
   @utils.deprecated_argument("analytical", "analytic")
-- 
2.43.0


From 8ad1613da0d3ad2df1f8723b38c85ec7a2ea642a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:40 +0000
Subject: [PATCH 24/64] fix: deprecated sine_tracker_cls raised TypeError, and
 safe_sine_len too with positional arguments

---
 sample/sms/sm.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sample/sms/sm.py b/sample/sms/sm.py
index 866944f..375f8fc 100644
--- a/sample/sms/sm.py
+++ b/sample/sms/sm.py
@@ -204,7 +204,7 @@ def _decorate_sinusoidal_model(func):
   @utils.deprecated_argument("min_sine_dur", "tracker__min_sine_dur")
   @utils.deprecated_argument(
       "safe_sine_len",
-      convert=lambda _, **kwargs:
+      convert=lambda *_, **kwargs:
       ("tracker__min_sine_dur",
        max(-1 if kwargs["safe_sine_len"] is None else kwargs["safe_sine_len"],
            kwargs.get("tracker__min_sine_dur", 1))),
@@ -213,8 +213,8 @@ def _decorate_sinusoidal_model(func):
   @utils.deprecated_argument("freq_dev_offset", "tracker__freq_dev_offset")
   @utils.deprecated_argument("freq_dev_slope", "tracker__freq_dev_slope")
   @utils.deprecated_argument("sine_tracker_cls",
-                             convert=lambda sine_tracker_cls, **kwargs:
-                             ("tracker", sine_tracker_cls()))
+                             convert=lambda *_, **kwargs:
+                             ("tracker", kwargs["sine_tracker_cls"]()))
   @utils.deprecated_argument("save_intermediate", "intermediate__save")
   @utils.deprecated_argument("fs", "tracker__fs")
   @utils.deprecated_argument("h", "tracker__h")
-- 
2.43.0


From ce7ee9b3d49be602f2e22aba3d72dd3364a83773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:40 +0000
Subject: [PATCH 25/64] fix: deprecated sample_fn of SAMPLEOptimizer always
 raised, sample_kw ignored remap=None

---
 sample/optimize.py | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/sample/optimize.py b/sample/optimize.py
index 9205450..ae8be05 100644
--- a/sample/optimize.py
+++ b/sample/optimize.py
@@ -70,6 +70,16 @@ def sample_kwargs_remapper(sinusoidal__log_n: Optional[int] = None,
   return kwargs
 
 
+def _deprecated_sample_kw(
+    sample_kw: Optional[Dict[str, Any]] = None,
+    remap: Optional[Callable[..., Dict[str, Any]]] = sample_kwargs_remapper,
+    **kwargs) -> Dict[str, Any]:  # pylint: disable=W0613
+  """Remap the deprecated argument :data:`sample_kw`
+  of :class:`SAMPLEOptimizer`"""
+  sample_kw = utils.default_kws(sample_kw)
+  return sample_kw if remap is None else remap(**sample_kw)
+
+
 class SAMPLEOptimizer:
   """Hyperparameter optimizer for a SAMPLE model,
   based on Gaussian Process minimization
@@ -92,17 +102,15 @@ class SAMPLEOptimizer:
 
   @utils.deprecated_argument(
       "sample_fn",
-      convert=lambda _, **kwargs:
-      ("model", kwargs["sample_fn"]
-       (**kwargs.get("remap", sample_kwargs_remapper)({} if kwargs.get(
-           "sample_kw", None) is None else kwargs.get("sample_kw", None)))),
+      convert=lambda *_, **kwargs:
+      ("model", kwargs["sample_fn"](**_deprecated_sample_kw(**kwargs))),
       msg="Provide a sample.SAMPLE instance with the desired parameters, "
       "instead of constructor and arguments")
   @utils.deprecated_argument(
       "sample_kw",
-      convert=lambda _, **kwargs:
-      ("model", kwargs.get("model", sample.SAMPLE()).set_params(**kwargs.get(
-          "remap", sample_kwargs_remapper)(**kwargs["sample_kw"]))),
+      convert=lambda *_, **kwargs:
+      ("model", (sample.SAMPLE() if kwargs.get("model") is None else kwargs[
+          "model"]).set_params(**_deprecated_sample_kw(**kwargs))),
       msg="Provide a sample.SAMPLE instance with the desired parameters, "
       "instead of constructor and arguments")
   def __init__(self,
-- 
2.43.0


From 7d0c1e8c0dc7316fe094239c6bfb604aea3a78a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:40 +0000
Subject: [PATCH 26/64] fix: SAMPLE.fit silently dropped deprecated and unknown
 parameters

---
 sample/sample.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sample/sample.py b/sample/sample.py
index de3eef2..d62f0ab 100644
--- a/sample/sample.py
+++ b/sample/sample.py
@@ -154,6 +154,7 @@ class SAMPLE(base.RegressorMixin, base.BaseEstimator):
     return self._fit_track(*self._preprocess_track(i=i, x=x, t=t))
 
   _PARAM_MATRIX_NROWS: int = 3
+  _CTX_KWARGS: Sequence[str] = ("n_jobs", "mp_manager", "pool", "_fit_args")
 
   @utils.warnings_simplefilter(action="ignore",
                                category=RuntimeWarning,
@@ -171,10 +172,10 @@ class SAMPLE(base.RegressorMixin, base.BaseEstimator):
     sample_kwargs = {}
     ctx_kwargs = {}
     for k, v in kwargs.items():
-      (sample_kwargs if k in self.get_params() else ctx_kwargs)[k] = v
+      (ctx_kwargs if k in self._CTX_KWARGS else sample_kwargs)[k] = v
     self.set_params(**sample_kwargs)
 
-    with sample._training.sample_training_context(self, **kwargs) as fit_args:  # pylint: disable=W0212
+    with sample._training.sample_training_context(self, **ctx_kwargs) as fit_args:  # pylint: disable=W0212
       # Process frames
       fit_args.progress_start(len(self.sinusoidal.time_frames(x)))
       tracks = self.sinusoidal.fit(x, y, _fit_args=fit_args).tracks_
-- 
2.43.0


From 84089816604f52f2b47ff09a0827baae11f6c467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:50 +0000
Subject: [PATCH 27/64] fix: SAMPLEOptimizer without a remapper ignored the
 explored parameters

---
 sample/optimize.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sample/optimize.py b/sample/optimize.py
index ae8be05..8015468 100644
--- a/sample/optimize.py
+++ b/sample/optimize.py
@@ -147,8 +147,9 @@ class SAMPLEOptimizer:
     if len(args) != len(self.dimensions):
       raise ValueError(f"Expected {len(self.dimensions)} "
                        f"positional arguments, got {len(args)}")
+    kwargs = dict(**dict(zip(self.dimensions, args)), **kwargs)
     if self.remap is not None:
-      kwargs = self.remap(**dict(zip(self.dimensions, args)), **kwargs)
+      kwargs = self.remap(**kwargs)
     return kwargs
 
   def loss(self, x: np.ndarray, fs: float) -> Callable[..., float]:
-- 
2.43.0


From ad770c4feffffdd0d2c7c8148a7815060aeadaf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:50 +0000
Subject: [PATCH 28/64] fix: SAMPLEOptimizer replaced the window, transform and
 hop of the model even when not explored

---
 sample/optimize.py | 34 ++++++++++++++++++++++++++++++++++
 1 file changed, 34 insertions(+)

diff --git a/sample/optimize.py b/sample/optimize.py
index 8015468..768d23e 100644
--- a/sample/optimize.py
+++ b/sample/optimize.py
@@ -1,6 +1,7 @@
 """Automatic optimization of SAMPLE hyperparameters"""
 import collections
 import functools
+import itertools
 import warnings
 from typing import Any, Callable, Dict, Optional, Tuple
 
@@ -70,6 +71,37 @@ def sample_kwargs_remapper(sinusoidal__log_n: Optional[int] = None,
   return kwargs
 
 
+# Arguments of sample_kwargs_remapper that determine each STFT parameter
+_STFT_N_KEYS = ("n", "log_n")
+_STFT_W_KEYS = ("w", "wtype", "wsize", *_STFT_N_KEYS)
+_STFT_H_KEYS = ("tracker__h", "overlap", *_STFT_W_KEYS)
+
+
+def _fixed_stft_kwargs(model: sample.SAMPLE,
+                       kwargs: Dict[str, Any]) -> Dict[str, Any]:
+  """Get the STFT parameters that are not determined by the arguments
+  of :func:`sample_kwargs_remapper`
+
+  Args:
+    model (SAMPLE): Model that defines the fixed parameters
+    kwargs (dict): Arguments for the remapper
+
+  Returns:
+    dict: Values of the fixed STFT parameters in the model"""
+  fixed = {}
+  if "sinusoidal" in kwargs or "sinusoidal_model" in kwargs:
+    return fixed
+  params = model.get_params()
+  for k, keys in (("n", _STFT_N_KEYS), ("w", _STFT_W_KEYS), ("tracker__h",
+                                                             _STFT_H_KEYS)):
+    determined = any(f"{prefix}__{key}" in kwargs for prefix, key in
+                     itertools.product(("sinusoidal",
+                                        "sinusoidal_model"), keys))
+    if not determined and f"sinusoidal__{k}" in params:
+      fixed[f"sinusoidal__{k}"] = params[f"sinusoidal__{k}"]
+  return fixed
+
+
 def _deprecated_sample_kw(
     sample_kw: Optional[Dict[str, Any]] = None,
     remap: Optional[Callable[..., Dict[str, Any]]] = sample_kwargs_remapper,
@@ -148,6 +180,8 @@ class SAMPLEOptimizer:
       raise ValueError(f"Expected {len(self.dimensions)} "
                        f"positional arguments, got {len(args)}")
     kwargs = dict(**dict(zip(self.dimensions, args)), **kwargs)
+    if self.remap is sample_kwargs_remapper:
+      kwargs = {**_fixed_stft_kwargs(self.model, kwargs), **kwargs}
     if self.remap is not None:
       kwargs = self.remap(**kwargs)
     return kwargs
-- 
2.43.0


From ed2f32a2c1bdcc9dbaedd0b637b6f89a3ae75180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:50 +0000
Subject: [PATCH 29/64] fix: arguments of beat-aware models could not be
 explored with the default remapper

---
 sample/optimize.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/sample/optimize.py b/sample/optimize.py
index 768d23e..c181327 100644
--- a/sample/optimize.py
+++ b/sample/optimize.py
@@ -25,6 +25,14 @@ np.int = int
 # -----------------------------------------------------------------------------
 
 
+def _sinusoidal(kwargs: Dict[str, Any]):
+  """Get the sinusoidal model with the given SAMPLE arguments, regardless of
+  the arguments that are specific to other classes of SAMPLE models"""
+  return sample.SAMPLE(**{
+      k: v for k, v in kwargs.items() if k.startswith("sinusoidal")
+  }).sinusoidal
+
+
 @utils.deprecated_argument("sinusoidal_model__log_n", "sinusoidal__log_n")
 @utils.deprecated_argument("sinusoidal_model__wtype", "sinusoidal__wtype")
 @utils.deprecated_argument("sinusoidal_model__wsize", "sinusoidal__wsize")
@@ -59,12 +67,12 @@ def sample_kwargs_remapper(sinusoidal__log_n: Optional[int] = None,
     kwargs["sinusoidal__n"] = 1 << sinusoidal__log_n
   # Window from name and size
   if "sinusoidal__w" not in kwargs:
-    wsize = int(sample.SAMPLE(**kwargs).sinusoidal.n * sinusoidal__wsize)
+    wsize = int(_sinusoidal(kwargs).n * sinusoidal__wsize)
     kwargs["sinusoidal__w"] = signal.get_window(window=sinusoidal__wtype,
                                                 Nx=wsize)
   # Hop-size from overlap and window size
   if "sinusoidal__tracker__h" not in kwargs:
-    wsize = np.size(sample.SAMPLE(**kwargs).sinusoidal.w)
+    wsize = np.size(_sinusoidal(kwargs).w)
     hopsize = int((1 - sinusoidal__overlap) * wsize)
     hopsize = max(min(hopsize, wsize), 1)
     kwargs["sinusoidal__tracker__h"] = hopsize
-- 
2.43.0


From 467ab5144452df2ce35a0f4e6dc3ddfb4f7fa908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:46 +0000
Subject: [PATCH 30/64] fix: nan and infinity typed in the GUI settings raised
 or were accepted

---
 sample/widgets/settings.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/sample/widgets/settings.py b/sample/widgets/settings.py
index 1a124e5..e383ad5 100644
--- a/sample/widgets/settings.py
+++ b/sample/widgets/settings.py
@@ -69,7 +69,7 @@ def strip_time_parse(x: str) -> Optional[float]:
     x = float(x)
   except ValueError:
     return None
-  if x <= 0:
+  if not x > 0:  # also reject nan
     return None
   return x
 
@@ -123,10 +123,9 @@ def custom_positive_int(x: str, dflt: Optional[int] = 1) -> int:
   Returns:
     int: Integer value"""
   try:
-    x = float(x)
-  except ValueError:
+    return int(max(float(x), 1))
+  except (ValueError, OverflowError):  # not a number, nan or infinite
     return dflt
-  return int(max(x, 1))
 
 
 def next_power_of_2(x: str) -> int:
-- 
2.43.0


From 727d3d66b9e5625df5cf147c8f7e1558e535b62a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:46 +0000
Subject: [PATCH 31/64] fix: interrupted saves of GUI user files destroyed the
 previous content

---
 sample/widgets/userfiles.py | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/sample/widgets/userfiles.py b/sample/widgets/userfiles.py
index f9d1363..091e1d2 100644
--- a/sample/widgets/userfiles.py
+++ b/sample/widgets/userfiles.py
@@ -4,6 +4,7 @@ import json
 import logging
 import os
 import sys
+import tempfile
 import tkinter.messagebox
 
 import ttkthemes
@@ -56,14 +57,30 @@ class UserDir:
       """Delete file"""
       os.remove(self.path)
 
+    @contextlib.contextmanager
+    def _replacing(self):
+      """Context manager for replacing the file atomically. It yields the path
+      of a temporary file, which takes the place of the file on success"""
+      dirname, basename = os.path.split(self.path)
+      os.makedirs(dirname, exist_ok=True)
+      fd, path = tempfile.mkstemp(prefix=f".{basename}.", dir=dirname)
+      os.close(fd)
+      try:
+        yield path
+        os.replace(path, self.path)
+      except BaseException:
+        os.remove(path)
+        raise
+
     def save_json(self, data, **kwargs):
       """Serialize an object to JSON and save in the file
 
       Args:
         data: Python object to serialize
         kwargs: Keyword arguments for :func:`json.dump`"""
-      with self.open(mode="w") as f:
-        json.dump(data, f, **kwargs)
+      with self._replacing() as path:
+        with open(path, mode="w", encoding="utf-8") as f:
+          json.dump(data, f, **kwargs)
 
     def load_json(self, **kwargs):
       """Load JSON from the file and deserialize as a Python object
@@ -78,8 +95,8 @@ class UserDir:
 
       Args:
         data: Python object to serialize"""
-      os.makedirs(os.path.dirname(self.path), exist_ok=True)
-      pickle.save_pickled(data, self.path)
+      with self._replacing() as path:
+        pickle.save_pickled(data, path)
 
     def load_pickled(self):
       """Load pickled data from the file and
-- 
2.43.0


From f5c9cfaade4090847a9cc22133b05a4a7a12b402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:46 +0000
Subject: [PATCH 32/64] fix: damaged or foreign settings files kept the GUI
 from starting

---
 sample/widgets/settings.py  | 32 +++++++++++++++++++++++++-------
 sample/widgets/userfiles.py | 25 ++++++++++++++++++++-----
 2 files changed, 45 insertions(+), 12 deletions(-)

diff --git a/sample/widgets/settings.py b/sample/widgets/settings.py
index e383ad5..df2c803 100644
--- a/sample/widgets/settings.py
+++ b/sample/widgets/settings.py
@@ -507,6 +507,26 @@ class SettingsTab(utils.DataOnRootMixin, tk.Frame):
       self.var.set(value)
       return self
 
+    def restore(self, value):
+      """Set entry value from an untrusted source. If it isn't a valid value
+      for the setting, then the current value is kept
+
+      Args:
+        value: The value to set
+
+      Returns:
+        self"""
+      if self.is_spacer:
+        return
+      previous = self.var.get()
+      try:
+        self.set(value)
+        self.get()
+      except (TypeError, ValueError, tk.tk.TclError):
+        logging.warning("Invalid value for setting '%s': %s", self.name, value)
+        self.var.set(previous)
+      return self
+
   def __init__(self,
                *args,
                setting_specs: Sequence[Tuple[str,
@@ -575,14 +595,12 @@ class SettingsTab(utils.DataOnRootMixin, tk.Frame):
     """Callback for updating parameters from the settings"""
     ttk_theme = userfiles.UserTtkTheme(self.settings_file)
     prev_theme = ttk_theme.get()
-    settings = {}
-    if from_file and self.settings_file.is_valid(
-    ) and self.settings_file.exists():
-      settings = self.settings_file.load_json()
+    if from_file:
+      for k, v in self.settings_file.load_settings().items():
+        if k in self._settings:
+          self._settings[k].restore(v)
     settings = {
-        k: settings.get(k, s.get())
-        for k, s in self._settings.items()
-        if not s.is_spacer
+        k: s.get() for k, s in self._settings.items() if not s.is_spacer
     }
     params = settings
     for func in self._postprocess:
diff --git a/sample/widgets/userfiles.py b/sample/widgets/userfiles.py
index 091e1d2..0e2b4f7 100644
--- a/sample/widgets/userfiles.py
+++ b/sample/widgets/userfiles.py
@@ -90,6 +90,24 @@ class UserDir:
       with self.open(mode="r") as f:
         return json.load(f, **kwargs)
 
+    def load_settings(self) -> dict:
+      """Load a dictionary of settings from the JSON file
+
+      Returns:
+        dict: The settings. It is empty if there is no file or if the file
+        does not contain a JSON object"""
+      if not self.is_valid() or not self.exists():
+        return {}
+      try:
+        data = self.load_json()
+      except ValueError as e:  # Neither JSON nor text
+        logging.warning("Invalid settings file: %s (%s)", self.path, e)
+        return {}
+      if not isinstance(data, dict):
+        logging.warning("Invalid settings file: %s", self.path)
+        return {}
+      return data
+
     def save_pickled(self, data):
       """Serialize an object to pickle and save in the file
 
@@ -164,8 +182,5 @@ class UserTtkTheme:
 
     Returns:
       str: The GUI theme setting value"""
-    if self.file.is_valid() and self.file.exists():
-      s = self.file.load_json()
-      if self.is_valid(s.get(k, None)):
-        return s[k]
-    return self.default()
+    theme = self.file.load_settings().get(k, None)
+    return theme if self.is_valid(theme) else self.default()
-- 
2.43.0


From d9ed807612fb1285f51f5bec06ecd98817f79474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:46 +0000
Subject: [PATCH 33/64] fix: floating point and 8 bit audio files could not be
 loaded in the GUI

---
 sample/widgets/audioload.py | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/sample/widgets/audioload.py b/sample/widgets/audioload.py
index 62348c2..b756e9f 100644
--- a/sample/widgets/audioload.py
+++ b/sample/widgets/audioload.py
@@ -14,6 +14,23 @@ from sample.widgets import responsive as tk
 from sample.widgets import utils
 
 
+def pcm_to_float(x: np.ndarray) -> np.ndarray:
+  """Convert audio samples from a file to floating point
+
+  Args:
+    x (array): Samples, either integer or floating point
+
+  Returns:
+    array: Floating point samples. The range of integers is
+    mapped to [-1, 1)"""
+  if not np.issubdtype(x.dtype, np.integer):
+    return x.astype(float)
+  info = np.iinfo(x.dtype)
+  if info.min == 0:  # Unsigned samples are centered in mid-range
+    return x / ((info.max + 1) / 2) - 1
+  return x / -info.min
+
+
 class AudioLoadTab(utils.DataOnRootMixin, tk.Frame):
   """Tab for loading and trimming audio files
 
@@ -160,13 +177,15 @@ class AudioLoadTab(utils.DataOnRootMixin, tk.Frame):
         self.filedialog_dir_save = self.filedialog_dir
       try:
         sr, x = wavfile.read(filename)
+        x = pcm_to_float(x)
+        if x.size == 0:
+          raise ValueError(f"No audio in file: {filename}")
       except Exception as e:  # pylint: disable=W0703
         logging.error("Error loading audio: [%s] %s", type(e).__name__, e)
         messagebox.showerror(
             type(e).__name__,
             str(e) or "".join((type(e).__name__, "\n", "Filename: ", filename)))
       else:
-        x = x / -np.iinfo(x.dtype).min
         if np.ndim(x) > 1:
           x = np.mean(x, axis=-1)
         self.audio_x = x
-- 
2.43.0


From d6a2feed19eef1fccc73e2e8dd899d4f5012ab1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:46 +0000
Subject: [PATCH 34/64] fix: audio files without detected onsets could not be
 loaded in the GUI

---
 sample/widgets/audioload.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sample/widgets/audioload.py b/sample/widgets/audioload.py
index b756e9f..f518149 100644
--- a/sample/widgets/audioload.py
+++ b/sample/widgets/audioload.py
@@ -198,6 +198,8 @@ class AudioLoadTab(utils.DataOnRootMixin, tk.Frame):
     """Automatically trim audio via onset detection"""
     onsets = np.flatnonzero(dsp.onset_detection(self.audio_x))
     logging.debug("Onsets: %s", onsets)
+    if onsets.size == 0:
+      onsets = np.zeros(1, dtype=int)
     onsets = np.array([*onsets, self.audio_x.size])
     onset_max_i = np.argmax(np.diff(onsets)).flatten()[0]
     self.audio_trim_stop = onsets[onset_max_i + 1]
-- 
2.43.0


From ae623204ee355feda81d8a6412d18ff713959ddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:46 +0000
Subject: [PATCH 35/64] fix: trim limits moved by one sample when shown, and
 failed if not finite

---
 sample/widgets/audioload.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sample/widgets/audioload.py b/sample/widgets/audioload.py
index f518149..aa2a42f 100644
--- a/sample/widgets/audioload.py
+++ b/sample/widgets/audioload.py
@@ -83,6 +83,8 @@ class AudioLoadTab(utils.DataOnRootMixin, tk.Frame):
       def trim_entry_cbk_(*args, **kwargs):  # pylint: disable=W0613
         try:
           tval = float(tvar.get())
+          if not np.isfinite(tval):
+            raise ValueError(f"not a finite number: {tval}")
         except Exception as e:  # pylint: disable=W0703
           logging.warning("Error parsing trim %s value: %s",
                           "start" if start else "stop", e)
@@ -227,7 +229,8 @@ class AudioLoadTab(utils.DataOnRootMixin, tk.Frame):
         entries. Default is :data:`False`"""
     if self.audio_loaded:
       if not samples:
-        value = int(value * self.audio_sr)
+        value = np.round(value * self.audio_sr)
+        value = int(np.clip(value, 0, self.audio_x.size))
       if start:
         self.audio_trim_start = min(self.audio_trim_stop - 1, max(0, value))
         logging.debug("Audio trim start: %d", self.audio_trim_start)
-- 
2.43.0


From d763621434874f221e4fd9f54c04557042090280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:46 +0000
Subject: [PATCH 36/64] fix: mouse presses and releases out of the axes broke
 manual trimming

---
 sample/widgets/audioload.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/sample/widgets/audioload.py b/sample/widgets/audioload.py
index aa2a42f..526cab1 100644
--- a/sample/widgets/audioload.py
+++ b/sample/widgets/audioload.py
@@ -248,6 +248,9 @@ class AudioLoadTab(utils.DataOnRootMixin, tk.Frame):
       if self.toolbar_on:
         logging.debug("Press aborted: toolbar on")
         self._trim_side = None
+      elif event.xdata is None:
+        logging.debug("Press aborted: out of axes")
+        self._trim_side = None
       elif self.audio_loaded and self._trim_side is None:
         x_i = int(event.xdata * self.audio_sr)
         self._trim_side = \
@@ -260,6 +263,9 @@ class AudioLoadTab(utils.DataOnRootMixin, tk.Frame):
       if self.toolbar_on:
         logging.debug("Release aborted: toolbar on")
         self._trim_side = None
+      elif event.xdata is None:
+        logging.debug("Release aborted: out of axes")
+        self._trim_side = None
       elif self.audio_loaded and self._trim_side is not None:
         self.set_trim(
             event.xdata,
-- 
2.43.0


From 0ec6c3d887991e55b8d0b5604b7120cac8d9b0bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:46 +0000
Subject: [PATCH 37/64] fix: a damaged audio cache kept the GUI from starting

---
 sample/widgets/audioload.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sample/widgets/audioload.py b/sample/widgets/audioload.py
index 526cab1..b23ccc9 100644
--- a/sample/widgets/audioload.py
+++ b/sample/widgets/audioload.py
@@ -137,7 +137,11 @@ class AudioLoadTab(utils.DataOnRootMixin, tk.Frame):
     # Load cache
     if self.audio_cache_file.is_valid() and self.audio_cache_file.exists():
       logging.info("Loading cache from %s", self.audio_cache_file.path)
-      d = self.audio_cache_file.load_pickled()
+      try:
+        d = self.audio_cache_file.load_pickled()
+      except Exception as e:  # pylint: disable=W0703
+        logging.error("Error loading cache: [%s] %s", type(e).__name__, e)
+        d = {}
       for k in ("audio_x", "audio_sr", "audio_trim_start", "audio_trim_stop"):
         v = d.get(k, None)
         logging.debug("%s: %s", k, v)
-- 
2.43.0


From b82161d43e3e51ff7d0016135a6161920c7964d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:49 +0000
Subject: [PATCH 38/64] fix: the GUI launcher restarted crashing processes
 forever

---
 sample/gui.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sample/gui.py b/sample/gui.py
index 64bc129..3039b77 100644
--- a/sample/gui.py
+++ b/sample/gui.py
@@ -70,10 +70,13 @@ def run(*argv):
 
   ctx = multiprocessing.get_context()
   q = ctx.SimpleQueue()
-  while q.empty() or q.get():
+  reload = True
+  while reload:
     root = multiprocessing.Process(target=launch,
                                    args=(args,),
                                    kwargs={"reload_queue": q})
     root.start()
     root.join()
+    # If the GUI didn't say whether to reload, reload only if it didn't crash
+    reload = root.exitcode == 0 if q.empty() else q.get()
   return 0
-- 
2.43.0


From f46b1e06da8a2090b33f45fd4b1dc75c0a5b9aba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:49 +0000
Subject: [PATCH 39/64] fix: resynthesis at the rate of the previous audio file
 exported at the new rate

---
 sample/widgets/audioload.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sample/widgets/audioload.py b/sample/widgets/audioload.py
index b23ccc9..58fb264 100644
--- a/sample/widgets/audioload.py
+++ b/sample/widgets/audioload.py
@@ -196,6 +196,7 @@ class AudioLoadTab(utils.DataOnRootMixin, tk.Frame):
           x = np.mean(x, axis=-1)
         self.audio_x = x
         self.audio_sr = sr
+        self.audio_resynth_x = None
         self.auto_trim()
         self._plt_lims_valid = False
         self.update_plot()
-- 
2.43.0


From 5cdeb827893ff2abfd5315aa44e40e1c241af4e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:49 +0000
Subject: [PATCH 40/64] fix: sine_tracking_2d failed on reversed models without
 frames or tracks

---
 sample/plots.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/sample/plots.py b/sample/plots.py
index d72d872..eef44ac 100644
--- a/sample/plots.py
+++ b/sample/plots.py
@@ -48,10 +48,12 @@ def sine_tracking_2d(s: Union[sm.SinusoidalModel, SAMPLE], ax=None, **kwargs):
   reverse = getattr(m.tracker, "reverse", False)
   if reverse:
     if m.intermediate.save:
-      tmax = len(m.intermediate["stft"]) * m.h / m.fs
+      stft = m.intermediate.get_state(deepcopy=False).get("stft", ())
+      tmax = len(stft) * m.h / m.fs
     else:
-      tmax = max((track["start_frame"] + track["freq"].size) * m.h / m.fs
-                 for track in m.tracks_)
+      tmax = max(((track["start_frame"] + track["freq"].size) * m.h / m.fs
+                  for track in m.tracks_),
+                 default=0)
   for i, track in enumerate(m.tracks_):
     t_x = (track["start_frame"] + np.arange(track["freq"].size)) * m.h / m.fs
     if reverse:
-- 
2.43.0


From 537bd1831c94cf44a13ff59b4312cd309bcce3b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:49 +0000
Subject: [PATCH 41/64] fix: failed analyses and sounds shorter than a window
 raised in the GUI

---
 sample/widgets/analysis.py | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/sample/widgets/analysis.py b/sample/widgets/analysis.py
index 1589d74..b7004c7 100644
--- a/sample/widgets/analysis.py
+++ b/sample/widgets/analysis.py
@@ -130,11 +130,15 @@ class AnalysisTab(utils.DataOnRootMixin, tk.Frame):
     """Update analysis and resynthesis figure"""
     for ax in self.ax:
       ax.clear()
+    if self.sample_object is None:
+      self.plt.canvas.draw()
+      return
     m = self.sample_object.sinusoidal
-    stft = np.array([mx for mx, _ in m.intermediate["stft"]]).T
-    if m.tracker.reverse:
+    stft = m.intermediate.get_state(deepcopy=False).get("stft", ())
+    tmax = len(stft) * m.h / m.fs
+    stft = np.array([mx for mx, _ in stft]).T
+    if m.tracker.reverse and stft.size > 0:
       stft = np.fliplr(stft)
-    tmax = len(m.intermediate["stft"]) * m.h / m.fs
 
     plots.sine_tracking_2d(self.sample_object, ax=self.ax)
 
@@ -144,13 +148,14 @@ class AnalysisTab(utils.DataOnRootMixin, tk.Frame):
       xlim = self.ax[0].get_xlim()
     ylim = self.ax[0].get_ylim()
 
-    self.ax[0].imshow(
-        stft,
-        cmap="Greys",
-        origin="lower",
-        aspect="auto",
-        extent=(*xlim, 0, m.fs / 2),
-    )
+    if stft.size > 0:
+      self.ax[0].imshow(
+          stft,
+          cmap="Greys",
+          origin="lower",
+          aspect="auto",
+          extent=(*xlim, 0, m.fs / 2),
+      )
     self.ax[0].set_ylim(ylim)
     self.ax[0].set_xlim(xlim)
     self.ax[0].grid(False)
@@ -222,6 +227,7 @@ class AnalysisTab(utils.DataOnRootMixin, tk.Frame):
             **self.sample_object_kwargs)
         self.sample_object.fit(x, **fit_kwargs)
       except Exception as e:  # pylint: disable=W0703
+        self.sample_object = None
         messagebox.showerror(type(e).__name__, str(e))
         logging.error("Error while fitting", exc_info=True)
       finally:
-- 
2.43.0


From f6c02ce93605fb96113dfd1a3e13e7bccfd76399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:19 +0000
Subject: [PATCH 42/64] fix: sine_tracking_3d ignored the reversed time axis

---
 sample/plots.py | 37 ++++++++++++++++++++-----------------
 1 file changed, 20 insertions(+), 17 deletions(-)

diff --git a/sample/plots.py b/sample/plots.py
index eef44ac..c0d108d 100644
--- a/sample/plots.py
+++ b/sample/plots.py
@@ -5,7 +5,7 @@ This module requires extra dependencies, which you can install with
 :data:`pip install lim-sample[plots]`"""
 import itertools
 import warnings
-from typing import Any, Callable, Dict, Optional, Sequence, Tuple, Union
+from typing import Any, Callable, Dict, Iterator, Optional, Sequence, Tuple, Union
 
 import matplotlib.figure
 import numpy as np
@@ -29,6 +29,23 @@ def _is_beat(m: SAMPLE, track_i: int):
       "decision"][track_i]
 
 
+def _track_times(m: sm.SinusoidalModel) -> Iterator[np.ndarray]:
+  """Helper function to compute the time axes of the tracks of a model"""
+  tmax = 0
+  reverse = getattr(m.tracker, "reverse", False)
+  if reverse:
+    if m.intermediate.save:
+      stft = m.intermediate.get_state(deepcopy=False).get("stft", ())
+      tmax = len(stft) * m.h / m.fs
+    else:
+      tmax = max(((track["start_frame"] + track["freq"].size) * m.h / m.fs
+                  for track in m.tracks_),
+                 default=0)
+  for track in m.tracks_:
+    t_x = (track["start_frame"] + np.arange(track["freq"].size)) * m.h / m.fs
+    yield tmax - t_x if reverse else t_x
+
+
 def sine_tracking_2d(s: Union[sm.SinusoidalModel, SAMPLE], ax=None, **kwargs):
   """Plot sinusoidal tracks detected by the model on two axes,
   one for frequency and one for magnitude
@@ -44,20 +61,7 @@ def sine_tracking_2d(s: Union[sm.SinusoidalModel, SAMPLE], ax=None, **kwargs):
   m = s.sinusoidal if isinstance(s, SAMPLE) else s
   if ax is None:
     _, ax = plt.subplots(1, 2, sharex=True)
-  tmax = 0
-  reverse = getattr(m.tracker, "reverse", False)
-  if reverse:
-    if m.intermediate.save:
-      stft = m.intermediate.get_state(deepcopy=False).get("stft", ())
-      tmax = len(stft) * m.h / m.fs
-    else:
-      tmax = max(((track["start_frame"] + track["freq"].size) * m.h / m.fs
-                  for track in m.tracks_),
-                 default=0)
-  for i, track in enumerate(m.tracks_):
-    t_x = (track["start_frame"] + np.arange(track["freq"].size)) * m.h / m.fs
-    if reverse:
-      t_x = tmax - t_x
+  for i, (track, t_x) in enumerate(zip(m.tracks_, _track_times(m))):
     b = _is_beat(s, i)
     ax[0].plot(t_x, track["freq"], "--" if b else "-", **kwargs)
     ax[1].plot(t_x, track["mag"], "--" if b else "-", **kwargs)
@@ -88,8 +92,7 @@ def sine_tracking_3d(s: Union[sm.SinusoidalModel, SAMPLE], ax=None):
   m = s.sinusoidal if isinstance(s, SAMPLE) else s
   if ax is None:
     ax = plt.axes(projection="3d")
-  for i, track in enumerate(m.tracks_):
-    t_x = (track["start_frame"] + np.arange(track["freq"].size)) * m.h / m.fs
+  for i, (track, t_x) in enumerate(zip(m.tracks_, _track_times(m))):
     ax.plot(t_x, track["freq"], track["mag"], "--" if _is_beat(s, i) else "-")
 
   ax.set_xlabel("time (s)")
-- 
2.43.0


From efe5d0c3510b98fce1ea1207e3de4262d289c149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:19 +0000
Subject: [PATCH 43/64] fix: beatsdrop_comparison failed with one regression
 model

---
 sample/plots.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sample/plots.py b/sample/plots.py
index c0d108d..7571180 100644
--- a/sample/plots.py
+++ b/sample/plots.py
@@ -294,7 +294,7 @@ def beatsdrop_comparison(
     shape = 3, len(beatsdrops)
     if transpose:
       shape = reversed(shape)
-    axs = fig.subplots(*shape, sharex=True)
+    axs = fig.subplots(*shape, sharex=True, squeeze=False)
     if transpose:
       axs = axs.T
   else:
-- 
2.43.0


From 8dfd3d9f6e79001a1c96813a06b3533c02bc564a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:19 +0000
Subject: [PATCH 44/64] fix: beatsdrop_comparison labelled the wrong axes and
 failed on lists of axes

---
 sample/plots.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sample/plots.py b/sample/plots.py
index 7571180..bc002f7 100644
--- a/sample/plots.py
+++ b/sample/plots.py
@@ -404,8 +404,8 @@ def beatsdrop_comparison(
       yl.set_horizontalalignment("left")
       yl.set_verticalalignment("bottom")
       ax.yaxis.set_label_coords(-0.05, 1.01)
-  for c in range(axs.shape[0]):
-    axs[c, -1].set_xlabel("time (s)")
+  for ax in ([r[-1] for r in axs] if transpose else axs[-1]):
+    ax.set_xlabel("time (s)")
   if transpose:
     axs = axs.T
   return fig, axs
-- 
2.43.0


From 6961f0c4aead8bce8bf3b099d64ff2c25283fd7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:52 +0000
Subject: [PATCH 45/64] fix: parameter descriptions lost the text between two
 sphinx roles

---
 sample/ipython.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sample/ipython.py b/sample/ipython.py
index 7e309ad..d0e10c7 100644
--- a/sample/ipython.py
+++ b/sample/ipython.py
@@ -41,7 +41,7 @@ class CollapsibleModelParams(ipd.HTML):
     model: Model of which the parameters should be displayed"""
 
   # Regex for sphinx commands
-  _SPHINXCLASS_REGEX = re.compile(r"\:\w+\:`.+`")
+  _SPHINXCLASS_REGEX = re.compile(r"\:\w+\:`[^`]+`")
   _SINGLE_WS_REGEX = re.compile(r"\s")
 
   @staticmethod
-- 
2.43.0


From ba97f3793fd074d8937d458b45fa470adcffd5ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:52 +0000
Subject: [PATCH 46/64] fix: collapsible parameters did not open with two
 widgets in a page

---
 sample/collapsible_params.html | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sample/collapsible_params.html b/sample/collapsible_params.html
index e102903..3a2a9b8 100644
--- a/sample/collapsible_params.html
+++ b/sample/collapsible_params.html
@@ -44,6 +44,11 @@
       var i;
       
       for (i = 0; i < coll.length; i++) {{
+        // The page can contain other widgets, which are already active
+        if (coll[i].collapsibleReady) {{
+          continue;
+        }}
+        coll[i].collapsibleReady = true;
         coll[i].addEventListener("click", function() {{
           this.classList.toggle("active");
           var content = this.nextElementSibling;
-- 
2.43.0


From 886c4ba17998b582a745323d4b0604b914de52c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:40 +0000
Subject: [PATCH 47/64] fix: changelog of versions with a dotted suffix was not
 found

---
 scripts/utils/extract_changelog.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/utils/extract_changelog.py b/scripts/utils/extract_changelog.py
index f416cde..d08e814 100644
--- a/scripts/utils/extract_changelog.py
+++ b/scripts/utils/extract_changelog.py
@@ -52,7 +52,7 @@ def main(*argv):
   args, _ = ArgParser(description=__doc__).parse_known_args(argv)
   filename = "".join(
       itertools.takewhile(lambda c: c == "_" or c.isdigit(),
-                          args.version.replace(".", "_")))
+                          args.version.replace(".", "_"))).rstrip("_")
   filepath = os.path.join(args.dir, f"v{filename}.md")
   with open(filepath, mode="r", encoding="utf-8") as fin:
     with open_if_any(args.output, mode="w") as fout:
-- 
2.43.0


From 17b43443e3ce7621c17b613dc7d5b7e8e52297da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:40 +0000
Subject: [PATCH 48/64] fix: notebook commands were lost with styles that move
 comments

---
 scripts/utils/yapf_nbformat.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/scripts/utils/yapf_nbformat.py b/scripts/utils/yapf_nbformat.py
index 4bbbc07..ac89a1b 100644
--- a/scripts/utils/yapf_nbformat.py
+++ b/scripts/utils/yapf_nbformat.py
@@ -18,7 +18,7 @@ _default_style_file = os.path.realpath(
     os.path.join(os.path.dirname(__file__), "..", "..", ".style.yapf"))
 _command_pattern = re.compile(r"\s*(!|%).*")
 _command_escape_comment = "  # escaped-for-yapf"
-_command_escape_pattern = re.compile(r"\s*pass  # (!|%).*" +
+_command_escape_pattern = re.compile(r"(\s*)pass\s+# ((!|%).*)" +
                                      _command_escape_comment)
 
 
@@ -100,11 +100,9 @@ def _unwrap_command_line(s: str) -> str:
 
   Returns:
     str: Line to comment"""
-  if not _command_escape_pattern.fullmatch(s):
-    return s
-  indent = "".join(itertools.takewhile(lambda c: c.isspace(), s))
-  cmd = s[(len(indent) + 8):-len(_command_escape_comment)]
-  return indent + cmd
+  # The style determines the number of spaces before the comment
+  m = _command_escape_pattern.fullmatch(s)
+  return s if m is None else m.group(1) + m.group(2)
 
 
 def format_nb(filepath: str,
-- 
2.43.0


From 723159b389cf13912452b9edca125447b902a379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:40 +0000
Subject: [PATCH 49/64] fix: notebook error tags accumulated at every run

---
 scripts/utils/yapf_nbformat.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/scripts/utils/yapf_nbformat.py b/scripts/utils/yapf_nbformat.py
index ac89a1b..08dc221 100644
--- a/scripts/utils/yapf_nbformat.py
+++ b/scripts/utils/yapf_nbformat.py
@@ -18,6 +18,7 @@ _default_style_file = os.path.realpath(
     os.path.join(os.path.dirname(__file__), "..", "..", ".style.yapf"))
 _command_pattern = re.compile(r"\s*(!|%).*")
 _command_escape_comment = "  # escaped-for-yapf"
+_error_tag_pattern = re.compile(r"# yapf:\d+:\d+:")
 _command_escape_pattern = re.compile(r"(\s*)pass\s+# ((!|%).*)" +
                                      _command_escape_comment)
 
@@ -135,7 +136,11 @@ def format_nb(filepath: str,
       lambda c: "# yapf: ignore" not in c[1]["source"].split("\n", 1)[0], cells)
   for i, cell in cells:
     src_changed = False
-    new_src = "\n".join(map(_wrap_command_line, cell["source"].splitlines()))
+    lines = cell["source"].splitlines()
+    while tag_errors and lines and _error_tag_pattern.match(lines[-1]):
+      # Tagged by a previous run
+      lines.pop()
+    new_src = "\n".join(map(_wrap_command_line, lines))
     try:
       new_src, _ = yapf_api.FormatCode(new_src, style_config=style)
     except yapf_api.errors.YapfError as e:
-- 
2.43.0


From a545559ad90c241054009d116da76e7497686ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:31 +0000
Subject: [PATCH 50/64] fix: notebook cells that cannot be formatted lost a
 final newline at every run

---
 scripts/utils/yapf_nbformat.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/scripts/utils/yapf_nbformat.py b/scripts/utils/yapf_nbformat.py
index 08dc221..839b24e 100644
--- a/scripts/utils/yapf_nbformat.py
+++ b/scripts/utils/yapf_nbformat.py
@@ -136,19 +136,21 @@ def format_nb(filepath: str,
       lambda c: "# yapf: ignore" not in c[1]["source"].split("\n", 1)[0], cells)
   for i, cell in cells:
     src_changed = False
-    lines = cell["source"].splitlines()
+    lines = cell["source"].split("\n")
     while tag_errors and lines and _error_tag_pattern.match(lines[-1]):
       # Tagged by a previous run
       lines.pop()
     new_src = "\n".join(map(_wrap_command_line, lines))
     try:
       new_src, _ = yapf_api.FormatCode(new_src, style_config=style)
+      if new_src.endswith("\n"):
+        new_src = new_src[:-1]
     except yapf_api.errors.YapfError as e:
       se = f"# yapf{e.args[0][9:]}"
       if se not in new_src and tag_errors:
         new_src += "\n" + se
         src_changed = True
-    new_src = "\n".join(map(_unwrap_command_line, new_src.splitlines()))
+    new_src = "\n".join(map(_unwrap_command_line, new_src.split("\n")))
     src_changed = src_changed or cell["source"] != new_src
     if src_changed:
       # pylint: disable=W0125
-- 
2.43.0


From 33732f1eae25cc7130526b194299413d052065bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:02 +0000
Subject: [PATCH 51/64] fix: evaluation output in the current directory: no
 folder to be made

---
 scripts/beatsdrop/evaluation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/beatsdrop/evaluation.py b/scripts/beatsdrop/evaluation.py
index 6fcf8e9..a2dea38 100644
--- a/scripts/beatsdrop/evaluation.py
+++ b/scripts/beatsdrop/evaluation.py
@@ -411,7 +411,7 @@ def prepare_folders(args: argparse.Namespace):
   logger.debug("Args: %s", args)
   # Make output file folder
   if args.output is not None:
-    os.makedirs(os.path.dirname(args.output), exist_ok=True)
+    os.makedirs(os.path.dirname(args.output) or os.curdir, exist_ok=True)
   # Make WAV folder
   if args.wav is None:
     args.wav_path = None
-- 
2.43.0


From 39d804542fbceb5c5a6344d6a665350a8003dc25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:02 +0000
Subject: [PATCH 52/64] fix: find the checkpoints of an evaluation whose output
 path has special characters

---
 scripts/beatsdrop/evaluation.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/scripts/beatsdrop/evaluation.py b/scripts/beatsdrop/evaluation.py
index a2dea38..7745a7c 100644
--- a/scripts/beatsdrop/evaluation.py
+++ b/scripts/beatsdrop/evaluation.py
@@ -424,6 +424,17 @@ def prepare_folders(args: argparse.Namespace):
   return args
 
 
+def find_checkpoints(args: argparse.Namespace) -> List[str]:
+  """Find checkpoint files
+
+  Args:
+    args (Namespace): CLI arguments
+
+  Returns:
+    list of str: Paths of the checkpoint files"""
+  return glob.glob(f"{glob.escape(args.output)}.ckpt-*")
+
+
 def load_results(args: argparse.Namespace):
   """Load results from files
 
@@ -446,7 +457,7 @@ def load_results(args: argparse.Namespace):
     args.ckpt_path = f"{args.output}.ckpt-{{}}".format
     if args.resume:
       # Find most recent checkpoint
-      for fn in glob.glob(args.ckpt_path("*")):
+      for fn in find_checkpoints(args):
         try:
           pd.read_csv(fn)
         except Exception:  # pylint: disable=W0703
@@ -537,7 +548,7 @@ def save_dataframe(args: argparse.Namespace):
     args.df.to_csv(args.csv_path)
   # Clean checkpoints
   if args.ckpt_path is not None:
-    for fn in glob.glob(args.ckpt_path("*")):
+    for fn in find_checkpoints(args):
       logger.debug("Deleting checkpoint: '%s'", fn)
       os.remove(fn)
   return args
-- 
2.43.0


From b816d05faf0400d49423cb1c3987b50dce476863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:02 +0000
Subject: [PATCH 53/64] fix: no checkpoints to be written by an evaluation
 without output

---
 scripts/beatsdrop/evaluation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scripts/beatsdrop/evaluation.py b/scripts/beatsdrop/evaluation.py
index 7745a7c..a1b9224 100644
--- a/scripts/beatsdrop/evaluation.py
+++ b/scripts/beatsdrop/evaluation.py
@@ -520,7 +520,8 @@ def run_tests(args: argparse.Namespace):
         if r is not None:
           args.results[r.seed] = r
         # Save checkpoint
-        if args.checkpoint is not None and (i + 1) % args.checkpoint == 0:
+        if args.ckpt_path is not None and args.checkpoint is not None and (
+            i + 1) % args.checkpoint == 0:
           args.last_checkpoint += 1
           args.last_file = args.ckpt_path(args.last_checkpoint)
           if args.tqdm:
-- 
2.43.0


From e5d956f2599470e344adb82e95980afbd84bd8b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:02 +0000
Subject: [PATCH 54/64] fix: save the results added to those of a previous
 evaluation

---
 scripts/beatsdrop/evaluation.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/scripts/beatsdrop/evaluation.py b/scripts/beatsdrop/evaluation.py
index a1b9224..450c28f 100644
--- a/scripts/beatsdrop/evaluation.py
+++ b/scripts/beatsdrop/evaluation.py
@@ -519,6 +519,7 @@ def run_tests(args: argparse.Namespace):
       for i, r in enumerate(it):
         if r is not None:
           args.results[r.seed] = r
+          args.last_file = None  # No file contains this result
         # Save checkpoint
         if args.ckpt_path is not None and args.checkpoint is not None and (
             i + 1) % args.checkpoint == 0:
-- 
2.43.0


From 42d9fd67ae78acd274fd515898344ad277d67cf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:02 +0000
Subject: [PATCH 55/64] fix: an evaluation started over does not leave old
 checkpoints to resume from

---
 scripts/beatsdrop/evaluation.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/scripts/beatsdrop/evaluation.py b/scripts/beatsdrop/evaluation.py
index 450c28f..2361d58 100644
--- a/scripts/beatsdrop/evaluation.py
+++ b/scripts/beatsdrop/evaluation.py
@@ -455,7 +455,11 @@ def load_results(args: argparse.Namespace):
   if args.output is not None:
     args.csv_path = f"{args.output}.csv"
     args.ckpt_path = f"{args.output}.ckpt-{{}}".format
-    if args.resume:
+    if not args.resume:
+      # Do not resume from these, if interrupted
+      for fn in find_checkpoints(args):
+        os.remove(fn)
+    else:
       # Find most recent checkpoint
       for fn in find_checkpoints(args):
         try:
-- 
2.43.0


From d2a4440830a937e8876f7578080627607ac07bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:35 +0000
Subject: [PATCH 56/64] fix: an evaluation killed while writing a file does not
 resume from a fragment

---
 scripts/beatsdrop/evaluation.py | 36 ++++++++++++++++++++++++++++-----
 1 file changed, 31 insertions(+), 5 deletions(-)

diff --git a/scripts/beatsdrop/evaluation.py b/scripts/beatsdrop/evaluation.py
index 2361d58..169d682 100644
--- a/scripts/beatsdrop/evaluation.py
+++ b/scripts/beatsdrop/evaluation.py
@@ -207,6 +207,27 @@ base_model: sample.SAMPLE = sample.SAMPLE(
 )
 
 
+@contextlib.contextmanager
+def replacing(path: str):
+  """Context manager for writing files which may be read by an evaluation
+  which resumes this one, if interrupted. Files are replaced as a whole
+
+  Args:
+    path (str): Path of the file
+
+  Yields:
+    str: Path of a temporary file, which becomes the file when complete"""
+  dirname, basename = os.path.split(path)
+  tmp_path = os.path.join(dirname, f".{basename}.tmp")
+  try:
+    yield tmp_path
+    os.replace(tmp_path, path)
+  except BaseException:
+    if os.path.exists(tmp_path):
+      os.remove(tmp_path)
+    raise
+
+
 @contextlib.contextmanager
 def test_case_context(seed: int,
                       onlybeat: bool = True,
@@ -229,7 +250,8 @@ def test_case_context(seed: int,
   try:
     # Save WAV
     if wav_path is not None:
-      wavfile.write(filename=wav_path.format(seed), rate=fs, data=x)
+      with replacing(wav_path.format(seed)) as path:
+        wavfile.write(filename=path, rate=fs, data=x)
     # User code
     yield outs, beat_ground_truth
   except Exception as e:  # pylint: disable=W0703
@@ -533,7 +555,8 @@ def run_tests(args: argparse.Namespace):
             it.set_description(f"Checkpoint: '{args.last_file}'")
           else:
             logger.info("Writing checkpoint: '%s'", args.last_file)
-          list2df(args.results, args.fieldnames).to_csv(args.last_file)
+          with replacing(args.last_file) as path:
+            list2df(args.results, args.fieldnames).to_csv(path)
   return args
 
 
@@ -551,7 +574,8 @@ def save_dataframe(args: argparse.Namespace):
   if args.csv_path is not None and (args.csv_path != args.last_file or
                                     not args.resume):
     logger.info("Writing CSV file: '%s'", args.csv_path)
-    args.df.to_csv(args.csv_path)
+    with replacing(args.csv_path) as path:
+      args.df.to_csv(path)
   # Clean checkpoints
   if args.ckpt_path is not None:
     for fn in find_checkpoints(args):
@@ -730,7 +754,8 @@ def statistical_tests(args: argparse.Namespace):
     args.rank_result = pickle.read_pickled(args.rr_path)
   if args.rr_path is not None and not os.path.exists(args.rr_path):
     logger.info("Saving test results: '%s'", args.rr_path)
-    pickle.save_pickled(args.rank_result, args.rr_path)
+    with replacing(args.rr_path) as path:
+      pickle.save_pickled(args.rank_result, path)
 
   with print_or_write(
       args.output if args.output is None else f"{args.output}_report.tex"):
@@ -868,7 +893,8 @@ def decision_report(args):
     importances = pd.DataFrame(importances)
     if importance_fname is not None:
       logger.info("Writing report file: '%s'", importance_fname)
-      importances.to_csv(importance_fname)
+      with replacing(importance_fname) as path:
+        importances.to_csv(path)
   else:
     importances = pd.read_csv(importance_fname)
   # ---------------------------------------------------------------------------
-- 
2.43.0


From 45d021394bc66c113410741c617420972850d855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:35 +0000
Subject: [PATCH 57/64] fix: reports of an evaluation are about its last
 results

---
 scripts/beatsdrop/evaluation.py | 35 ++++++++++++++++++++++++++++-----
 1 file changed, 30 insertions(+), 5 deletions(-)

diff --git a/scripts/beatsdrop/evaluation.py b/scripts/beatsdrop/evaluation.py
index 169d682..8d73215 100644
--- a/scripts/beatsdrop/evaluation.py
+++ b/scripts/beatsdrop/evaluation.py
@@ -446,6 +446,29 @@ def prepare_folders(args: argparse.Namespace):
   return args
 
 
+def rank_result_path(args: argparse.Namespace) -> Optional[str]:
+  """Path of the results of the statistical tests
+
+  Args:
+    args (Namespace): CLI arguments
+
+  Returns:
+    str: The path, or :data:`None` if there is no output"""
+  return None if args.output is None else f"{args.output}_rankresult.dat"
+
+
+def importance_path(args: argparse.Namespace) -> Optional[str]:
+  """Path of the importance of features for the decision errors
+
+  Args:
+    args (Namespace): CLI arguments
+
+  Returns:
+    str: The path, or :data:`None` if there is no output"""
+  return None if args.output is None else f"{args.output}_errors_"\
+                                          "feature_importance.csv"
+
+
 def find_checkpoints(args: argparse.Namespace) -> List[str]:
   """Find checkpoint files
 
@@ -573,6 +596,11 @@ def save_dataframe(args: argparse.Namespace):
   args.df = list2df(args.results, args.fieldnames)
   if args.csv_path is not None and (args.csv_path != args.last_file or
                                     not args.resume):
+    # What was computed from the previous results is not valid anymore
+    for fn in (rank_result_path(args), importance_path(args)):
+      if os.path.exists(fn):
+        logger.debug("Deleting outdated file: '%s'", fn)
+        os.remove(fn)
     logger.info("Writing CSV file: '%s'", args.csv_path)
     with replacing(args.csv_path) as path:
       args.df.to_csv(path)
@@ -722,9 +750,7 @@ def statistical_tests(args: argparse.Namespace):
   variables_to_test = tuple(
       f"{k}{i}" for k, i in itertools.product("fad", range(2)))
   # Load precomputed results
-  args.rr_path = None
-  if args.output is not None:
-    args.rr_path = f"{args.output}_rankresult.dat"
+  args.rr_path = rank_result_path(args)
   pops = {}
   for k in variables_to_test:
     for m in models:
@@ -865,8 +891,7 @@ def decision_report(args):
   # ---------------------------------------------------------------------------
 
   # --- Importance ------------------------------------------------------------
-  importance_fname = None if args.output is None else f"{args.output}_errors_"\
-                                                       "feature_importance.csv"
+  importance_fname = importance_path(args)
   targets = ["beat", "single"]
   if importance_fname is None or not os.path.isfile(importance_fname):
     dtc = sklearn.tree.DecisionTreeClassifier(random_state=42)
-- 
2.43.0


From 23696f897dcd7c02a8134b12623e92baa0e69fed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:35 +0000
Subject: [PATCH 58/64] fix: feature importance was not computed without a
 progress bar

---
 scripts/beatsdrop/evaluation.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/scripts/beatsdrop/evaluation.py b/scripts/beatsdrop/evaluation.py
index 8d73215..8bd084a 100644
--- a/scripts/beatsdrop/evaluation.py
+++ b/scripts/beatsdrop/evaluation.py
@@ -908,13 +908,13 @@ def decision_report(args):
     it = enumerate(itertools.islice(rkf.split(df[features]), n_samples))
     if args.tqdm:
       it = tqdm.tqdm(it, total=n_samples, desc="Decision errors analysis")
-      for i, (train_index, _) in it:
-        for j, t in enumerate(targets):
-          dtc.fit(df[features].iloc[train_index], df[t].iloc[train_index])
-          idx = 2 * i + j
-          for k, v in zip(dtc.feature_names_in_, dtc.feature_importances_):
-            importances[k][idx] = v
-          importances["target"][idx] = t
+    for i, (train_index, _) in it:
+      for j, t in enumerate(targets):
+        dtc.fit(df[features].iloc[train_index], df[t].iloc[train_index])
+        idx = 2 * i + j
+        for k, v in zip(dtc.feature_names_in_, dtc.feature_importances_):
+          importances[k][idx] = v
+        importances["target"][idx] = t
     importances = pd.DataFrame(importances)
     if importance_fname is not None:
       logger.info("Writing report file: '%s'", importance_fname)
-- 
2.43.0


From 6986555b13ca203b3945afab373983d70b50f793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:35 +0000
Subject: [PATCH 59/64] fix: posterior histogram of decisions which are all
 equal

---
 scripts/beatsdrop/evaluation.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/scripts/beatsdrop/evaluation.py b/scripts/beatsdrop/evaluation.py
index 8bd084a..f54178d 100644
--- a/scripts/beatsdrop/evaluation.py
+++ b/scripts/beatsdrop/evaluation.py
@@ -1008,6 +1008,7 @@ def decision_report(args):
       axs[0].set_title("Histogram")
 
       # Posterior
+      counts = np.atleast_2d(counts)  # There may be only one label
       posterior = counts / np.sum(counts, axis=0)
 
       bw = np.median(np.diff(bins)) / (len(labels) + 0.5)
-- 
2.43.0


From 2365e19f727daec45c84b9a7fd27a277a1497aa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:36 +0000
Subject: [PATCH 60/64] fix: report of an evaluation, with the confidence
 intervals of autorank

---
 scripts/beatsdrop/evaluation.py | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/scripts/beatsdrop/evaluation.py b/scripts/beatsdrop/evaluation.py
index f54178d..29eda49 100644
--- a/scripts/beatsdrop/evaluation.py
+++ b/scripts/beatsdrop/evaluation.py
@@ -636,13 +636,23 @@ def print_report(rank_result):
 
   print(r"\newpage")
 
+  # If populations are normal, means are compared instead of medians
+  average = "median" if "median" in rank_result.rankdf else "mean"
+
   frequentist = rank_result.decision_matrix is None
   if frequentist:
     # Frequentist
     def decision(k1, k2):
       """Get the answer to the question: 'How is k1 wrt k2?'"""
-      rd = np.squeeze(np.diff(rank_result.rankdf["meanrank"][[k1, k2]]))
-      if abs(rd) < rank_result.cd:
+      if rank_result.cd is None:
+        # No critical difference of ranks: use the confidence intervals
+        rd = np.squeeze(np.diff(rank_result.rankdf[average][[k1, k2]]))
+        cd = (rank_result.rankdf["ci_upper"] -
+              rank_result.rankdf["ci_lower"])[k1] / 2
+      else:
+        rd = np.squeeze(np.diff(rank_result.rankdf["meanrank"][[k1, k2]]))
+        cd = rank_result.cd
+      if abs(rd) < cd:
         return "equal"
       elif rd > 0:
         return "smaller"
@@ -681,15 +691,16 @@ def print_report(rank_result):
     print("& \\multicolumn{2}{c}{", mk, "} %", m)
   print("\\\\")
   for _ in models:
-    print("& Med. & $95\\%$ CI", end=" ")
+    print("&", "Med." if average == "median" else "Mean",
+          "& $95\\%$ CI",
+          end=" ")
   for k in variables_to_test:
     print("\\\\\n\\midrule")
     print(f"${syms[k[0]]}_{int(k[1:]) + 1}$ ({units[k[0]]}) % {k}")
     for m, mk in models:
-      median = rank_result.rankdf["median"][f"{k}_{m}_ar"]
-      print(f"& {median:.3f}")
-      ci = rank_result.rankdf["CI"][f"{k}_{m}_ar"]
-      print(f"& {ci}")
+      row = rank_result.rankdf.loc[f"{k}_{m}_ar"]
+      print(f"& {row[average]:.3f}")
+      print(f"& [{row['ci_lower']:.3f}, {row['ci_upper']:.3f}]")
   print(r"\\\bottomrule\\")
   print(r"\end{tabular}")
   print(r"\caption{Summary of test results}")
-- 
2.43.0


From 07c5c245ddab98d9d3d48c7f2eabbb3526a42ff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:13:52 +0000
Subject: [PATCH 61/64] fix: example: 8-bit audio is unsigned

---
 scripts/beatsdrop/example.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/scripts/beatsdrop/example.py b/scripts/beatsdrop/example.py
index b06f88f..2f10eb8 100644
--- a/scripts/beatsdrop/example.py
+++ b/scripts/beatsdrop/example.py
@@ -134,7 +134,12 @@ def load_audio(args, dtype=np.float64):
   if np.issubdtype(args.x.dtype, np.integer):
     logger.debug("Converting to %s input of type %s", dtype.__name__,
                  args.x.dtype)
-    args.x = np.true_divide(args.x, -np.iinfo(args.x.dtype).min, dtype=dtype)
+    info = np.iinfo(args.x.dtype)
+    # Unsigned samples are centered in the middle of their range
+    half_range = (int(info.max) - int(info.min) + 1) // 2
+    args.x = np.true_divide(args.x, half_range, dtype=dtype)
+    if info.min == 0:
+      args.x -= 1
   if np.ndim(args.x) > 1:
     logger.debug("Converting to mono from %d channels", args.x.shape[1])
     args.x = np.mean(args.x, axis=-1)
-- 
2.43.0


From bba699e389d1e58c810569135ff81b2ece686429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:14:03 +0000
Subject: [PATCH 62/64] fix: example: an end of the crop beyond the end of the
 audio

---
 scripts/beatsdrop/example.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/scripts/beatsdrop/example.py b/scripts/beatsdrop/example.py
index 2f10eb8..c7e8516 100644
--- a/scripts/beatsdrop/example.py
+++ b/scripts/beatsdrop/example.py
@@ -159,6 +159,8 @@ def crop_audio(args):
     return args
   i0 = None if args.crop_start is None else int(args.crop_start * args.fs)
   i1 = None if args.crop_end is None else int(args.crop_end * args.fs)
+  if i1 is not None:
+    i1 = min(i1, args.x.size)
   logger.debug("Cropping between: %s and %s", i0, i1)
   if i0 is None or i1 is None:
     logger.debug("Onset detection")
-- 
2.43.0


From 62692381f290f093dbc3e625e033de404d28fb26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:14:03 +0000
Subject: [PATCH 63/64] fix: benchmark: filterbank at the sampling frequency of
 the audio

---
 scripts/cim22/cochleagram_setup.py.in | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/cim22/cochleagram_setup.py.in b/scripts/cim22/cochleagram_setup.py.in
index ac64c3d..282ff50 100644
--- a/scripts/cim22/cochleagram_setup.py.in
+++ b/scripts/cim22/cochleagram_setup.py.in
@@ -8,5 +8,5 @@ np.random.seed(42)
 x = np.random.randn(np.round(fs * dur).astype(int))
 stride = max(1, np.round(fs * {stride_time}).astype(int))
 
-fbank = psycho.GammatoneFilterbank(normalize=True).precompute(fs=44100,
+fbank = psycho.GammatoneFilterbank(normalize=True).precompute(fs=fs,
                                                               analytic=True)
-- 
2.43.0


From f4a8c3d2c5312d6d5131e1ac2fc84ed3215a317d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:40:22 +0000
Subject: [PATCH 64/64] fix: refitting with a storage given as a parameter
 keeps the storage's entries of previous fits

---
 sample/beatsdrop/sample.py | 7 ++++---
 sample/sms/sm.py           | 2 +-
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/sample/beatsdrop/sample.py b/sample/beatsdrop/sample.py
index 3531c1a..325ebd8 100644
--- a/sample/beatsdrop/sample.py
+++ b/sample/beatsdrop/sample.py
@@ -87,10 +87,11 @@ class SAMPLEBeatsDROP(sample.sample.SAMPLE):
 
   @functools.wraps(sample.sample.SAMPLE.fit)
   def fit(self, x: np.ndarray, y=None, **kwargs):
+    self.set_params(
+        **{k: v for k, v in kwargs.items() if k not in self._CTX_KWARGS})
     # Delete the decisions about the tracks of previous runs
-    decisor = kwargs.get("beat_decisor") or self.beat_decisor
-    if hasattr(decisor, "intermediate"):
-      decisor.intermediate.reset()
+    if hasattr(self.beat_decisor, "intermediate"):
+      self.beat_decisor.intermediate.reset()
     return super().fit(x, y, **kwargs)
 
   def _fit_track(self, i: int, t: np.ndarray,
diff --git a/sample/sms/sm.py b/sample/sms/sm.py
index 375f8fc..fd54a05 100644
--- a/sample/sms/sm.py
+++ b/sample/sms/sm.py
@@ -313,8 +313,8 @@ class SinusoidalModel(base.TransformerMixin, base.BaseEstimator):
     # Avoid _fit_args appearing in signatures, since it's considered
     # an implementation detail
     fit_args = kwargs.pop("_fit_args", None)
-    self.intermediate.reset()
     self.set_params(**kwargs)
+    self.intermediate.reset()
     self.tracker.reset()
     self.w_ = self._normalized_window
     if getattr(self.tracker, "reverse", False):
-- 
2.43.0

