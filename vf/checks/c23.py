"""C23: estimators obey the parameter protocol"""
import copy
import functools
import pickle

import numpy as np
from sklearn import base, linear_model

from sample import hinge, sample as sample_
from sample.beatsdrop import decision, regression
from sample.beatsdrop import sample as bd_sample
from sample.sms import mm, sm
from sample.utils import learn
from vf.core import Check

CHECK = Check(
    "C23",
    rule="random histories of constructions, direct and nested sets, resets, "
    "rejected sets, clones, copies and pickles on every estimator, judged "
    "against a plain tree of parameters; random histories on storages and on "
    "dynamically defined default properties. Non-trivial: every history.",
    require={"histories": 80, "sets": 200, "nested-sets": 100, "resets": 60,
             "clones": 60, "copies": 40, "rejected": 60, "given": 40,
             "defaults": 200, "storages": 40, "appends": 330,
             "saved-off": 100, "default-properties": 30, "defaulters": 30,
             "fit-overrides": 4},
)


def fn1(*a):
  return a


def fn2(*a, **k):
  return a, k


NUM = lambda rng: float(rng.normal())
INT = lambda rng: int(rng.integers(1, 5000))
BOOL = lambda rng: bool(rng.random() < .5)
FUN = lambda rng: [fn1, fn2, np.median, np.mean][rng.integers(4)]
STR = lambda rng: ["a_", "coef_", "slope", ""][rng.integers(4)]
OPT = lambda rng: [None, 3, 7.5][rng.integers(3)]
WIN = lambda rng: np.hanning(int(rng.integers(4, 900)))

_linear = {"linear_regressor_k": STR, "linear_regressor_q": STR}
_tracker = {"fs": INT, "h": INT, "max_n_sines": INT, "min_sine_dur": NUM,
            "freq_dev_offset": NUM, "freq_dev_slope": NUM}
_beat = {"fs": NUM, "lpf": NUM, **_linear}
_sample = {"regressor_k": STR, "regressor_q": STR, "freq_reduce": FUN,
           "max_n_modes": OPT}
DEF = object()  # unspecified default function

# class: (plain parameters: sampler), (components: default), default values
SPECS = {
    learn.OptionalStorage: ({"save": BOOL}, {}, {"save": False}),
    sm.SineTracker: (_tracker, {}, {
        "fs": 44100, "h": 500, "max_n_sines": 100, "min_sine_dur": .04,
        "freq_dev_offset": 20, "freq_dev_slope": .01}),
    mm.ModalTracker: ({
        **_tracker, "reverse": BOOL, "peak_threshold": NUM, "strip_t": OPT,
        "frequency_bounds": lambda rng: (20, float(rng.integers(30, 9000))),
        "merge_strategy": lambda rng: ["average", "single"][rng.integers(2)]
    }, {}, {"fs": 44100, "h": 500, "max_n_sines": 100, "reverse": False}),
    sm.SinusoidalModel: ({"n": INT, "t": NUM, "padded": BOOL, "w": WIN}, {
        "tracker": sm.SineTracker, "intermediate": learn.OptionalStorage},
                         {"n": 2048, "t": -90, "padded": False}),
    mm.ModalModel: ({"n": INT, "t": NUM, "padded": BOOL, "w": WIN}, {
        "tracker": mm.ModalTracker, "intermediate": learn.OptionalStorage},
                    {"n": 2048, "t": -90, "padded": False}),
    hinge.HingeRegression: ({
        **_linear, "method": lambda rng: ["trf", "dogbox"][rng.integers(2)],
        "coeffs_init": FUN, "bounds": FUN},
        {"linear_regressor": linear_model.LinearRegression},
        {"linear_regressor_k": "coef_", "method": "dogbox"}),
    regression.BeatRegression: ({**_beat, "params_init": FUN, "bounds": FUN},
                                {}, {"fs": 100, "lpf": 50}),
    regression.DualBeatRegression: ({
        **_beat, "params_init": FUN, "bounds": FUN, "freq_loss": FUN,
        "amp_loss": FUN, "freq_w": NUM, "freq_clip": OPT, "disambiguate": BOOL
    }, {}, {"fs": 100, "lpf": 50, "freq_clip": 2.5, "disambiguate": True}),
    decision.BeatDecisor: ({}, {"intermediate": learn.OptionalStorage}, {}),
    decision.AlmostNotABeatDecisor: (
        {"th": NUM}, {"intermediate": learn.OptionalStorage}, {"th": 1}),
    sample_.SAMPLE: (_sample, {
        "sinusoidal": mm.ModalModel, "regressor": hinge.HingeRegression},
        {"regressor_k": "k_", "freq_reduce": np.mean, "max_n_modes": None}),
    bd_sample.SAMPLEBeatsDROP: (_sample, {
        "sinusoidal": mm.ModalModel, "regressor": hinge.HingeRegression,
        "beatsdrop": regression.DualBeatRegression,
        "beat_decisor": decision.AlmostNotABeatDecisor},
        {"regressor_k": "k_", "freq_reduce": np.mean, "max_n_modes": None}),
}
# None means default
RESETTABLE = {"w", "coeffs_init", "bounds", "params_init", "freq_loss",
              "amp_loss"}
ALTERNATIVES = {
    "tracker": [sm.SineTracker, mm.ModalTracker],
    "sinusoidal": [sm.SinusoidalModel, mm.ModalModel],
    "beatsdrop": [regression.BeatRegression, regression.DualBeatRegression],
    "beat_decisor": [decision.BeatDecisor, decision.AlmostNotABeatDecisor],
    "intermediate": [learn.OptionalStorage],
    "regressor": [hinge.HingeRegression],
    "linear_regressor": [linear_model.LinearRegression, linear_model.Ridge],
}


def default_tree(cls):
  """Expected parameters. Nodes are (class, parameters, instance or None)"""
  if cls not in SPECS:
    return {"": cls}
  plain, comp, values = SPECS[cls]
  d = {"": cls}
  for k in plain:
    d[k] = values.get(k, DEF)
  for k, c in comp.items():
    d[k] = default_tree(c)
  return d


def eq(a, b):
  if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
    return np.array_equal(a, b)
  if isinstance(b, float) and b != b:
    return a != a
  if callable(a) and callable(b):
    return a is b or getattr(a, "__qualname__", a) == getattr(
        b, "__qualname__", 0)
  return a == b and isinstance(a, bool) == isinstance(b, bool)


def agree(mon, obj, tree, what, path=""):
  cls = tree[""]
  if not mon.check("component-class", type(obj) is cls,
                   {**what, "path": path, "got": type(obj), "want": cls}):
    return
  if cls not in SPECS:
    return
  params = obj.get_params(deep=False)
  want = {k for k in tree if k}
  mon.check("names", want <= set(params) and all(
      params[k] is None or k == "linear_regressor" for k in set(params) - want),
            {**what, "path": path, "got": sorted(params), "want": sorted(want)})
  deep = obj.get_params(deep=True)
  for k in sorted(want & set(params)):
    v = tree[k]
    mon.check("read-back", params[k] is getattr(obj, k) or eq(
        params[k], getattr(obj, k)), {**what, "path": path + k})
    if isinstance(v, dict):
      agree(mon, params[k], v, what, path + k + "__")
      if v[""] in SPECS:
        for s in v:
          if s and not isinstance(v[s], dict) and v[s] is not DEF:
            mon.check("deep", eq(deep.get(f"{k}__{s}", "missing"), v[s]),
                      {**what, "path": path + k + "__" + s,
                       "got": deep.get(f"{k}__{s}", "missing"), "want": v[s]})
    elif v is DEF:
      mon.check("default", params[k] is not None or k not in RESETTABLE,
                {**what, "path": path + k})
      if k == "w":
        mon.check("default-window", eq(params[k], np.hamming(2001)),
                  {**what, "path": path})
    else:
      mon.check("value", eq(params[k], v),
                {**what, "path": path + k, "got": params[k], "want": v})


def components(obj, out=None):
  """All the stateful components"""
  out = [] if out is None else out
  if type(obj) in SPECS or isinstance(obj, base.BaseEstimator):
    out.append(obj)
    for v in obj.get_params(deep=False).values():
      if isinstance(v, (base.BaseEstimator, np.ndarray)):
        components(v, out)
  elif isinstance(obj, np.ndarray):
    out.append(obj)
  return out


def unshared(mon, clause, a, b, what):
  ids = {id(c): c for c in components(a)}
  both = [c for c in components(b) if id(c) in ids]
  mon.check(clause, not both, {**what, "shared": [type(c) for c in both]})


def paths(tree, pre=""):
  """All the settable paths"""
  out = []
  for k, v in tree.items():
    if k:
      out.append((tree, k, pre + k))
      if isinstance(v, dict) and v[""] in SPECS:
        out += paths(v, f"{pre}{k}__")
  return out


def new_value(rng, tree, k):
  """Value and expected tree"""
  cls = tree[""]
  if k in SPECS[cls][1]:
    c = ALTERNATIVES[k][rng.integers(len(ALTERNATIVES[k]))]
    o = c()
    t = default_tree(c)
    if rng.random() < .5 and c in SPECS and SPECS[c][0]:
      j = list(SPECS[c][0])[rng.integers(len(SPECS[c][0]))]
      v = SPECS[c][0][j](rng)
      o.set_params(**{j: v})
      t[j] = v
    return o, t
  v = SPECS[cls][0][k](rng)
  return v, v


def build(rng, cls, mon, what):
  """Construct with arguments, directly or nested"""
  tree = default_tree(cls)
  kwargs = {}
  plain, comp, _ = SPECS[cls]
  for k in plain:
    if rng.random() < .25:
      kwargs[k], tree[k] = new_value(rng, tree, k)
  for k in comp:
    r = rng.random()
    if r < .25:
      kwargs[k], tree[k] = new_value(rng, tree, k)
      mon.event("given")
    elif r < .35:
      kwargs[k] = None
    if accepts_nested(cls) and tree[k][""] in SPECS and rng.random() < .4:
      sub = [p for p in paths(tree[k], f"{k}__") if not isinstance(
          p[0][p[1]], dict)]
      if sub:
        t, j, p = sub[rng.integers(len(sub))]
        kwargs[p], t[j] = new_value(rng, t, j)
  what["kwargs"] = sorted(kwargs)
  obj = cls(**kwargs)
  for k in comp:
    if kwargs.get(k) is not None:
      mon.check("given-component", getattr(obj, k) is kwargs[k], what)
  return obj, tree


def accepts_nested(cls):
  return cls not in (hinge.HingeRegression, regression.BeatRegression,
                     regression.DualBeatRegression, learn.OptionalStorage)


@CHECK.kind("history", quick=390, thorough=6000)
def history(rng, mon, spec):
  cls = list(SPECS)[spec["i"] % len(SPECS)]
  what = {"cls": cls.__name__}
  with mon.no_exception("constructed", what):
    obj, tree = build(rng, cls, mon, what)
    other = cls()
  mon.event("histories")
  ops = []
  what["ops"] = ops
  agree(mon, obj, tree, what)
  unshared(mon, "shared-defaults", other, cls(), what)
  unshared(mon, "shared-defaults", other, obj, what)
  mon.event("defaults", len(components(other)))
  pristine = other, default_tree(cls)
  agree(mon, *pristine, what)
  for _ in range(int(rng.integers(2, 8))):
    op = str(rng.choice(["set", "set", "many", "reset", "bad", "clone", "copy",
                         "pickle"]))
    ps = paths(tree)
    if op == "set":
      t, k, p = ps[rng.integers(len(ps))]
      v, w = new_value(rng, t, k)
      ops.append(("set", p))
      mon.event("sets")
      if "__" in p:
        mon.event("nested-sets")
      with mon.no_exception("settable", what):
        if "__" not in p and rng.random() < .3:
          setattr(obj, k, v)
        else:
          mon.check("set-self", obj.set_params(**{p: v}) is obj, what)
      t[k] = w
      if isinstance(w, dict):
        got = functools.reduce(getattr, p.split("__"), obj)
        mon.check("same-component", got is v, {**what, "path": p})
    elif op == "many":
      pick = [ps[i] for i in rng.permutation(len(ps))[:4]]
      pick = [x for x in pick if not isinstance(x[0][x[1]], dict)]
      kw = {}
      for t, k, p in pick:
        kw[p], t[k] = new_value(rng, t, k)
      ops.append(("many", sorted(kw)))
      mon.event("sets", len(kw))
      mon.event("nested-sets", sum("__" in p for p in kw))
      with mon.no_exception("settable", what):
        obj.set_params(**kw)
    elif op == "reset":
      cand = [x for x in ps if x[1] in RESETTABLE or x[1] in SPECS[x[0][""]][1]]
      if not cand:
        continue
      t, k, p = cand[rng.integers(len(cand))]
      old = functools.reduce(getattr, p.split("__"), obj)
      ops.append(("reset", p))
      mon.event("resets")
      with mon.no_exception("settable", what):
        obj.set_params(**{p: None})
      d = SPECS[t[""]][1].get(k)
      t[k] = DEF if d is None else default_tree(d)
      new = functools.reduce(getattr, p.split("__"), obj)
      if isinstance(new, (base.BaseEstimator, np.ndarray)):
        mon.check("fresh-default", new is not old, {**what, "path": p})
    elif op == "bad":
      t, k, p = ps[rng.integers(len(ps))]
      p = str(rng.choice([p + "x", "x" + p, "nothing__" + p, p + "__nothing"]))
      ops.append(("bad", p))
      mon.event("rejected")
      try:
        obj.set_params(**{p: 1})
      except (ValueError, AttributeError):
        pass
      else:
        mon.fail("unknown-accepted", {**what, "path": p})
      if accepts_nested(cls):
        try:
          cls(**{p: 1})
        except (ValueError, AttributeError, TypeError):
          pass
        else:
          mon.fail("unknown-constructed", {**what, "path": p})
    else:
      ops.append((op,))
      mon.event("clones" if op == "clone" else "copies")
      with mon.no_exception("copiable", what):
        if op == "clone":
          new = base.clone(obj)
        elif op == "copy":
          new = copy.deepcopy(obj)
        else:
          new = pickle.loads(pickle.dumps(obj))
      agree(mon, new, tree, what)
      unshared(mon, "shared-copy", obj, new, what)
      if rng.random() < .5:
        # Continue on the copy: the original is not affected
        old_tree = copy.deepcopy(tree)
        ps = [x for x in paths(tree) if not isinstance(x[0][x[1]], dict)]
        t, k, p = ps[rng.integers(len(ps))] if ps else (None, None, None)
        if p:
          v, w = new_value(rng, t, k)
          new.set_params(**{p: v})
          t[k] = w
          agree(mon, obj, _restore(old_tree), what)
        obj = new
    agree(mon, obj, tree, what)
  agree(mon, *pristine, {**what, "pristine": True})
  mon.case((cls.__name__, tuple(o[0] for o in ops)))


def _restore(t):
  """Deep copies keep the placeholder of default values"""
  for k, v in t.items():
    if isinstance(v, dict):
      _restore(v)
    elif type(v) is object:
      t[k] = DEF
  return t


@CHECK.kind("storage", quick=80, thorough=2000)
def storage(rng, mon, spec):
  save = BOOL(rng)
  s = learn.OptionalStorage(save) if rng.random() < .8 else learn.OptionalStorage(
      save=save)
  ref = {}
  mon.event("storages")
  n = int(rng.integers(3, 40))
  mon.case(("storage", save, n))
  log = []
  what = {"log": log}
  for _ in range(n):
    r = rng.random()
    if r < .08:
      save = not save
      s.set_params(save=save)
      log.append(("save", save))
    elif r < .14:
      s.reset()
      ref = {}
      log.append("reset")
    elif r < .2:
      c = base.clone(s)
      mon.check("clone-empty", c.get_state() == {} and c.save == s.save, what)
      c.save = True
      c.append("k0", 1)
    else:
      k = f"k{rng.integers(3)}"
      v = [object(), np.zeros(2), None, False][rng.integers(4)]
      i = None if rng.random() < .5 else int(rng.integers(0, 9))
      f = s.append if rng.random() < .7 else s
      log.append((k, i))
      got = f(k, v) if i is None else (f(k, v, i) if rng.random() < .3 else f(
          k, v, index=i))
      mon.check("passed-through", got is v, what)
      if save:
        mon.event("appends")
        l = ref.setdefault(k, [])
        if i is None:
          l.append(v)
        else:
          while len(l) <= i:
            l.append(None)
          l[i] = v
      else:
        mon.event("saved-off")
    st = s.get_state(deepcopy=False)
    ok = set(st) == set(ref) and all(
        len(st[k]) == len(ref[k]) and all(a is b for a, b in zip(st[k], ref[k]))
        for k in ref)
    if not mon.check("recorded", ok, what):
      return
    for k in ("k0", "k1", "k2"):
      try:
        l = s[k]
      except KeyError:
        mon.check("missing", k not in ref, {**what, "k": k})
      else:
        mon.check("item", k in ref and len(l) == len(ref[k]), {**what, "k": k})
    if not ref:
      mon.check("no-cache", not getattr(s, "cache_", None), what)
  d = s.get_state()
  for k, l in ref.items():
    for a, b in zip(d[k], l):
      if isinstance(b, np.ndarray):
        mon.check("deep-state", a is not b and np.array_equal(a, b), what)
        a += 1
        mon.check("independent-state", not np.any(b), what)


class Thing:

  def __init__(self, owner=None):
    self.owner = owner


@CHECK.kind("property", quick=60, thorough=1500)
def prop(rng, mon, spec):
  """Default properties of dynamically defined classes"""
  mon.event("default-properties")
  made = []

  def member(self):
    """The doc"""
    made.append(self)
    return Thing(self)

  how = int(rng.integers(3))
  kw = {}
  if rng.random() < .4:
    kw["doc"] = "Other doc"
  if how == 0 and not kw:
    p = learn.default_property(member)
  elif how == 1:
    p = learn.default_property(name="other", **kw)(member)
  else:
    p = learn.default_property(member, **kw)

  class Owner:

    def __init__(self, member=None):
      self.member = member

  Owner.member = p
  what = {"how": how, "kw": sorted(kw)}
  mon.case(("property", how, tuple(kw)))
  mon.check("doc", Owner.member.fget.__doc__ == kw.get("doc", "The doc"), what)
  a, b = Owner(), Owner()
  mon.check("made-on-set", made == [a, b] if True else None, what)
  mon.check("fresh", isinstance(a.member, Thing) and a.member is not b.member
            and a.member.owner is a, what)
  mon.check("stable", a.member is a.member and len(made) == 2, what)
  x = Thing()
  a.member = x
  mon.check("kept", a.member is x and b.member.owner is b, what)
  a.member = None
  mon.check("reset", isinstance(a.member, Thing) and a.member is not x and
            a.member.owner is a, what)
  for v in (0, False, "", (), 0.):
    a.member = v
    mon.check("falsy-kept", a.member is v, {**what, "v": v})
  mon.event("defaulters")
  Owner.member.defaulter(lambda o, v: not isinstance(v, Thing))
  c = Owner(3)
  mon.check("defaulter", isinstance(c.member, Thing) and c.member.owner is c,
            what)
  mon.check("defaulter-valid", Owner(x).member is x, what)
  Owner.member.defaulter()
  mon.check("no-defaulter", Owner().member is None, what)
  for name in ("<lambda>", "_"):
    f = (lambda self: 1) if name == "<lambda>" else member
    try:
      if name == "_":
        learn.default_property(f, name="_")
      else:
        learn.default_property(f)
    except ValueError:
      pass
    else:
      mon.fail("name-accepted", {**what, "name": name})
  mon.check("named", isinstance(
      type("T", (), {"m": learn.default_property(lambda _: {}, name="m")})(),
      object), what)

  # Two properties on the same object do not interfere
  class Two:

    @learn.default_property
    def p(self):
      return Thing("p")

    @learn.default_property
    def q(self):
      return Thing("q")

  class Sub(Two):

    @learn.default_property
    def p(self):
      return Thing("sub")

  two, sub = Two(), Sub()
  for o, w in ((two, "p"), (sub, "sub")):
    o.p = None
    o.q = x
    mon.check("separate", o.p.owner == w and o.q is x, what)
    o.q = None
    mon.check("separate", o.p.owner == w and o.q.owner == "q", what)


@CHECK.kind("fit", quick=8, thorough=150)
def fit(rng, mon, spec):
  """Parameters given to the fit of a sinusoidal model are those of later
  sets; clones of fitted models are not fitted"""
  mon.event("fit-overrides")
  x = rng.normal(size=1500)
  cls = [sm.SinusoidalModel, mm.ModalModel][spec["i"] % 2]
  m = cls(w=np.hamming(200), n=256)
  h = int(rng.integers(50, 200))
  fs = int(rng.integers(2000, 9000))
  kw = {"tracker__h": h, "tracker__fs": fs, "intermediate__save": BOOL(rng),
        "t": -60.}
  what = {"cls": cls.__name__, "kw": kw}
  mon.case(("fit", cls.__name__, kw["intermediate__save"]))
  with mon.frozen("input", x, detail=what):
    ret = m.fit(x, **kw)
  mon.check("self", ret is m, what)
  p = m.get_params()
  for k, v in kw.items():
    mon.check("override", eq(p[k], v), {**what, "k": k, "got": p[k]})
  mon.check("frame-rate", m.frame_rate == fs / h, what)
  state = m.intermediate.get_state()
  mon.check("stored", (len(state.get("peaks", ())) == len(m.time_frames(x)))
            if kw["intermediate__save"] else state == {}, what)
  c = base.clone(m)
  mon.check("clone-state", c.intermediate.get_state() == {} and
            not hasattr(c, "w_"), what)
  q = c.get_params()
  for k, v in p.items():
    if not isinstance(v, base.BaseEstimator):
      mon.check("clone-params", eq(q[k], v), {**what, "k": k})
  # Unknown names are not accepted
  try:
    m.fit(x, nothing=3)
  except (ValueError, TypeError):
    pass
  else:
    mon.fail("unknown-fit", what)
