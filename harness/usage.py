"""Replays lives of estimators (spec/Usage.tla)."""
from common import guarded, micro
import hashlib
import numpy as np
from sklearn.base import clone
from estim import frac, make
from skwdro.solvers.optim_cond import OptCondTorch

FORMS = {"float": float, "int": lambda v: int(v) if v == int(v) else v, "f32": np.float32,
         "i64": lambda v: np.int64(v) if v == int(v) else np.float64(v), "0d": np.array}
BAD = {"negative-radius": {"rho": -.25}, "negative-aversion": {"eta": -1.},
       "zero-level": {"alpha": 0.}, "big-level": {"alpha": 1.5}}
PROBE_X = [[2, -1], [0, 3], [1, 1]]
PROBE_Y = [1, 2, 1]


def text(v):
    """A parameter as a string; equal numbers give equal strings."""
    if isinstance(v, OptCondTorch):
        return " ".join(map(str, ("rule", v.order, v.tol_theta, v.tol_lambda,
                                  v.monitoring, v.mode, v.metric)))
    if isinstance(v, (bool, np.bool_)) or v is None or isinstance(v, str):
        return repr(v)
    if isinstance(v, np.ndarray) and v.ndim:
        return digest(v)
    if isinstance(v, (tuple, list)):
        return str([text(u) for u in v])
    return repr(float(v))


def params(est):
    return [{"n": n, "v": text(v)} for n, v in sorted(est.get_params(deep=False).items())]


def data(k, e):
    """Training points and targets, as integers."""
    gen = np.random.RandomState(e["draw"])
    x = gen.randint(0 if k["cls"] == "nv" else -3, 4, size=(5, 2)).tolist()
    if k["cls"] == "log":
        y = [1, 2] + [int(v) for v in gen.randint(1, 2 + e["draw"] % 2, size=3)]
        if e["draw"] % 2 and k["solver"] != "dedicated":
            y[2] = 3
        if e["bad"] == "one-class":
            y = [2] * 5
    else:
        y = [int(v) for v in gen.randint(1, 4, size=5)]
    return x, y


def cast(values, how):
    """The same numbers in another container; (argument, memory behind it)."""
    if how == "list":
        return values, values
    a = np.array(values, dtype={"f32": np.float32, "int": np.int64}.get(how, np.float64))
    if how == "fortran":
        a = np.asfortranarray(a)
    elif how == "strided":
        base = np.full([2 * n for n in a.shape], 9.)
        base[tuple(slice(None, None, 2) for _ in a.shape)] = a
        return base[tuple(slice(None, None, 2) for _ in a.shape)], base
    elif how == "frozen":
        a.flags.writeable = False
    return a, a


def digest(a):
    if isinstance(a, list):
        return repr(a)
    return f"{a.dtype}{a.shape}{a.strides}{a.flags.writeable}" + hashlib.md5(a.tobytes()).hexdigest()


class Life:
    def __init__(self, k):
        self.k, self.est, self.held = k, None, []

    def hold(self, values, how):
        arg, memory = cast(values, how)
        self.held.append(memory)
        return arg

    def arguments(self, e):
        k, o = self.k, {}
        if e["op"] == "fit":
            x, y = data(k, e)
            if e["bad"] in ("nan", "inf"):
                x[1][0] = float(e["bad"])
            if e["bad"] == "nan-target":
                y[2] = float("nan")
            if e["bad"] == "short":
                y = y[:-1]
            if e["bad"] == "flat":
                x = [r[0] for r in x]
            how = "f64" if e["bad"] in ("nan", "inf", "nan-target") and e["arr"] == "int" \
                else e["arr"]
        else:
            x, y, how = PROBE_X, PROBE_Y, e["arr"]
            if k["cls"] == "log":
                y = [1, 2, 1]
        args = [self.hold([list(r) if isinstance(r, list) else r for r in x], how)]
        if k["cls"] not in ("nv", "pf") and e.get("m") not in ("predict", "predict_proba"):
            args.append(self.hold(list(y), how))
        return args

    def construct(self, e):
        over = {"rho": FORMS[e["form"]](frac(self.k["rho"])), **BAD.get(e["bad"], {})}
        if e["rule"] == "own":
            # default budgets are long, let them stop early
            over["opt_cond"] = OptCondTorch(2) if self.k["budget"] else OptCondTorch(2, 1e9, 1e9)
        elif e["rule"] == "none":
            over["opt_cond"] = None
        if self.k["cls"] == "pf" and e["support"]:
            over["C"], over["d"] = np.array([[1., 0.]]), np.array([[100.]])
        self.est = make(self.k, **over)
        self.rule = self.est.get_params(deep=False)["opt_cond"]

    def call(self, e, args):
        op = e["op"]
        if op == "construct":
            return self.construct(e)
        if op == "fit":
            return self.est.fit(*args)
        if op == "use":
            return getattr(self.est, e["m"])(*args)
        if op == "set":
            return self.est.set_params(rho=FORMS[e["form"]](frac(e["rho"])))
        if op == "clone":
            return clone(self.est)
        for a in self.held:
            if isinstance(a, list):
                a.reverse()
            elif a.flags.writeable:
                a *= -7

    def finite(self):
        return all(np.all(np.abs(np.asarray(v, dtype=float)) < 1e6)
                   for v in (getattr(self.est, n, None) for n in ("coef_", "intercept_"))
                   if v is not None)

    def step(self, e):
        args = self.arguments(e) if e["op"] in ("fit", "use") else []
        before = [digest(a) for a in self.held]
        ret, exc = guarded(self.call, e, args)
        after = [digest(a) for a in self.held]
        o = {"raised": exc, "before": before if e["op"] != "scribble" else after,
             "after": after, "params": [], "set": "", "kept": True, "self": ret is self.est,
             "out": [], "finite": True, "clone": [], "cloneused": False}
        if self.est is None:
            return o
        o["params"] = params(self.est)
        o["kept"] = self.est.get_params(deep=False)["opt_cond"] is self.rule
        o["finite"] = bool(self.finite())
        if e["op"] == "set":
            o["set"] = text(frac(e["rho"]) if e["form"] != "f32" else np.float32(frac(e["rho"])))
        if e["op"] == "use" and exc == "":
            o["out"] = [micro(v) for v in np.asarray(ret, dtype=float).flatten()]
        if e["op"] == "clone" and exc == "":
            o["clone"] = params(ret)
            probe = {"lr": "predict", "log": "predict"}.get(self.k["cls"], "eval")
            xy = (np.array(PROBE_X, dtype=float),) + (
                (np.array(PROBE_Y),) if self.k["cls"] == "wb" else ())
            o["cloneused"] = guarded(getattr(ret, probe), *xy)[1] == ""
        return o


def run(sc):
    life = Life(sc["k"])
    return [{"i": i + 1, "k": sc["k"], "e": e, "o": life.step(e)}
            for i, e in enumerate(sc["es"])]
