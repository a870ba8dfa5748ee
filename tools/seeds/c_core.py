"""Planted bugs: synthesis, export, output arrays, parameters, deprecations, optimisation"""

seed("c03-single-precision", "C03",
     "an analytic resynthesis of a sound longer than some tenths of a second",
     "complex exponentials are computed in single precision, so that the phase of analytic resynthesis drifts with time",
     [("sample/utils/dsp.py", "@utils.numpy_out(dtype=np.complex64)\n",
       "@utils.numpy_out(dtype=np.complex64, dtype_promote=False)\n")],
     '''
import numpy as np
from sample.sample import additive_synth
t = np.arange(44100) / 44100
x = additive_synth(t, [5000., 9000.], [9., 9.], [1., .5], analytic=True)
y = additive_synth(t, [5000., 9000.], [9., 9.], [1., .5])
print(np.abs(x.real - y).max())
assert np.abs(x.real - y).max() < 1e-6
''')

seed("c03-order-subset", "C03",
     "a resynthesis of some of the modes in an increasing order",
     "the modes are selected before being ordered when the order is increasing",
     [("sample/sample.py",
       "    m_ord = self.mode_argsort_(order=order, reverse=reverse)[:n_modes]\n",
       '''    m_ord = self.mode_argsort_(order=order)[:n_modes]
    if not reverse:
      m_ord = m_ord[::-1]
''')],
     '''
import numpy as np
from sample.sample import SAMPLE
m = SAMPLE()
m.param_matrix_ = np.array([[100., 200., 300.], [1., 1., 1.], [.1, .2, .3]])
t = np.arange(100) / 8000
x = m.predict(t, n_modes=1, order="freqs", reverse=False)
y = .1 * np.exp(-2 * t) * np.cos(200 * np.pi * t)
assert np.allclose(x, y)
''')

seed("c04-active-limit", "C04",
     "an export of a model with fewer modes than its maximum",
     "the declared number of active modes is the limit of the model, even when it has fewer modes",
     [("sample/sample.py", '''    active_modes = n_modes if self.max_n_modes is None else min(
        self.max_n_modes, n_modes)
''', '''    active_modes = n_modes if self.max_n_modes is None else self.max_n_modes
''')],
     '''
import numpy as np
from sample.sample import SAMPLE
m = SAMPLE(max_n_modes=8)
m.param_matrix_ = np.array([[100., 200., 300.], [1., 1., 1.], [.1, .2, .3]])
assert m.sdt_params_()["activeModes"] == 3
''')


seed("c22-rectify-copy", "C22",
     "a rectification with an output array of another type",
     "the rectified signal is returned in a new array when the output array has a type different from the input",
     [("sample/psycho.py", "  return np.maximum(a, th, out=out)\n",
       '''  if out.dtype != np.result_type(a):
    return np.maximum(a, th).astype(out.dtype)
  return np.maximum(a, th, out=out)
''')],
     '''
import numpy as np
from sample import psycho
a = np.array([-1., 2., -3.], dtype=np.float32)
o = np.full(3, 9.)
r = psycho.hwr(a, out=o)
print(r, o)
assert r is o and o.tolist() == [0, 2, 0]
''')

seed("c21-variance-formula", "C21",
     "a normalisation by deviation of a signal whose mean is much larger than its deviation",
     "the deviation is computed as the difference between the mean square and the square of the mean",
     [("sample/utils/dsp.py", '''  np.subtract(x, np.mean(x), out=out)
  return np.true_divide(out, np.std(x) or 1, out=out)
''', '''  np.subtract(x, np.mean(x), out=out)
  return np.true_divide(out, np.sqrt(np.mean(np.square(x)) - np.mean(x)**2) or 1, out=out)
''')],
     '''
import numpy as np
from sample.utils import dsp
x = np.random.default_rng(0).normal(size=50) + 1e8
r = dsp.normalize(x, mode="rms")
print(r.std())
assert abs(r.std() - 1) < 1e-3
''')

seed("c23-reset-shared", "C23",
     "two estimators whose component is reset to nothing",
     "the default component is built once per property, so that resetting it shares it between instances",
     [("sample/utils/learn.py", '''    if self.fdef(parent, v):
      v = self._default_fn(parent)
    return setattr(parent, self._attr_name, v)
''', '''    if self.fdef(parent, v):
      if hasattr(parent, self._attr_name):
        # Restoring the default
        if not hasattr(self, "_default_v"):
          self._default_v = self._default_fn(parent)
        v = self._default_v
      else:
        v = self._default_fn(parent)
    return setattr(parent, self._attr_name, v)
''')],
     '''
from sample.sample import SAMPLE
a, b = SAMPLE(), SAMPLE()
a.set_params(sinusoidal=None)
b.set_params(sinusoidal=None)
assert a.sinusoidal is not b.sinusoidal
''')

seed("c23-storage-sparse", "C23",
     "values appended to a storage at decreasing indices",
     "values appended at an index before the end are inserted instead of written at that index",
     [("sample/utils/learn.py", '''          self.cache_[key].extend(
              itertools.repeat(None, index + 1 - len(self.cache_[key])))
''', '''          self.cache_[key].extend(
              itertools.repeat(None, index - len(self.cache_[key])))
          self.cache_[key].append(value)
          return value
        if self.cache_[key][index] is not None:
          self.cache_[key].insert(index, None)
''')],
     '''
from sample.utils.learn import OptionalStorage
s = OptionalStorage(save=True)
for i, v in ((2, "a"), (0, "b"), (2, "c"), (1, "d")):
  s.append("k", v, i)
print(s["k"])
assert s["k"] == ["b", "d", "c"]
''')

seed("c23-state-shallow", "C23",
     "a stored state modified after being retrieved",
     "a deep copy of the stored state shares its arrays with the storage",
     [("sample/utils/learn.py", "    return copy.deepcopy(s) if deepcopy else s\n",
       "    return {k: copy.copy(v) for k, v in s.items()} if deepcopy else s\n")],
     '''
import numpy as np
from sample.utils.learn import OptionalStorage
s = OptionalStorage(save=True)
s.append("k", np.zeros(2))
s.get_state()["k"][0][0] = 5
assert s["k"][0][0] == 0
''')

seed("c24-prefix-inner", "C24",
     "two deprecated arguments with the same prefix given in the same call",
     "only the first deprecated argument with a prefix is renamed",
     [("sample/utils/__init__.py", '''            k: f"{new_key}{k[len(old_key):]}"
            for k in kwargs
            if k.startswith(old_key)
''', '''            k: k.replace(old_key, new_key)
            for k in kwargs
            if k.startswith(old_key)
''')],
     '''
import warnings
from sample.utils import deprecated_argument
@deprecated_argument("x_", "", prefix=True)
def f(**kwargs):
  return kwargs
with warnings.catch_warnings():
  warnings.simplefilter("ignore")
  r = f(x_a=1, x_max_b=2)
print(r)
assert r == {"a": 1, "max_b": 2}
''')


seed("c24-warn-once", "C24",
     "a deprecated argument used a second time",
     "the deprecation is only warned about the first time",
     [("sample/utils/__init__.py", '''          if warn:
            warnings.warn(
''', '''          if warn and old_key_ not in func_.__dict__.setdefault(
              "_warned", []):
            func_._warned.append(old_key_)
            warnings.warn(
''')],
     '''
import warnings
from sample.sample import additive_synth
for _ in range(2):
  with warnings.catch_warnings(record=True) as w:
    warnings.simplefilter("always")
    additive_synth([0.], [1.], [1.], [1.], analytical=True)
  assert w, "no warning"
''')

seed("c25-final-rate", "C25",
     "an optimisation at a sampling rate different from the default of the model",
     "the returned model is fitted at the sampling rate of the given model",
     [("sample/optimize.py",
       "    model.set_params(**self._kwargs(*res.x, sinusoidal__tracker__fs=fs))\n",
       '''    model.set_params(**self._kwargs(*res.x))
    if fs > model.sinusoidal.fs:
      model.set_params(sinusoidal__tracker__fs=fs)
''')],
     '''
import numpy as np
from sample.sample import SAMPLE
from sample.optimize import SAMPLEOptimizer
t = np.arange(8000) / 8000
x = np.exp(-3 * t) * np.cos(2 * np.pi * 500 * t)
m, _ = SAMPLEOptimizer(SAMPLE(), loss_fn=lambda x, y: 1., sinusoidal__log_n=(9, 10)).gp_minimize(x, 8000, n_calls=2, n_initial_points=2, random_state=0)
print(m.sinusoidal.fs, m.freqs_)
assert m.sinusoidal.fs == 8000
''')

seed("c25-clip-asymmetric", "C25",
     "a resynthesis whose negative peaks exceed those of the input",
     "the resynthesis is clipped between the extremes of the input, not to its peak",
     [("sample/optimize.py", '''        np.clip(y, -peak, peak, out=y)
''', '''        np.clip(y, np.min(x), np.max(x), out=y)
''')],
     '''
import numpy as np
from sample.sample import SAMPLE
from sample.optimize import SAMPLEOptimizer
class Stub(SAMPLE):
  def fit(self, x, y=None, **kw):
    return self
  def predict(self, t, **kw):
    return np.linspace(-3, 3, t.size)
got = []
o = SAMPLEOptimizer(Stub(), loss_fn=lambda x, y: got.append(y.copy()) or 0., sinusoidal__log_n=(9, 10))
x = np.zeros(2000)
x[5], x[9] = 1, -.1
o.loss(x, 8000)((9,)) if False else o.loss(x, 8000)([9])
print(got[0].min(), got[0].max())
assert got[0].min() == -1 and got[0].max() == 1
''')

seed("c25-state-y", "C25",
     "a search continued from a saved state",
     "the scores of the saved state are not passed, so its points are evaluated again",
     [("sample/optimize.py", '''      kwargs["x0"] = state.x_iters
      kwargs["y0"] = state.func_vals
''', '''      kwargs["x0"] = state.x_iters
      kwargs["y0"] = np.minimum.accumulate(state.func_vals)
''')],
     '''
import numpy as np
from sample.sample import SAMPLE
from sample.optimize import SAMPLEOptimizer
x = np.random.default_rng(0).normal(size=4000)
v = iter((1., 5., 3., 4., 2., 6., 7., 8.))
o = SAMPLEOptimizer(SAMPLE(sinusoidal__t=0), loss_fn=lambda x, y: next(v), sinusoidal__log_n=(7, 10))
_, r = o.gp_minimize(x, 8000, n_calls=3, n_initial_points=3, random_state=0)
_, s = o.gp_minimize(x, 8000, state=r, n_calls=2, n_initial_points=2, random_state=0)
print(r.func_vals, s.func_vals)
assert list(s.func_vals[:3]) == list(r.func_vals)
''')

