"""Replays histories of estimators (spec/History.tla). The reference of a fit
is computed in a fresh process, forked from one that only imported the code."""
from common import guarded, micro
import json
import os
import random
import numpy as np
import torch as pt
import torch.nn as nn
from sklearn.base import clone
from estim import make
from skwdro.base.problems import EmpiricalDistributionWithLabels
from skwdro.solvers.entropic_dual_torch import solve_dual_wdro
from skwdro.solvers.optim_cond import OptCondTorch
from skwdro.torch import robustify

RULES = {1: dict(tol_theta=.5, tol_lambda=0.), 2: dict(tol_theta=.9, tol_lambda=.9),
         3: dict(tol_theta=.05, tol_lambda=.05),
         4: dict(tol_theta=.5, tol_lambda=.5, metric="param"),
         5: dict(tol_theta=.5, tol_lambda=.5, metric="param", monitoring="lambda")}
PROBE = [[2., -1., 3.], [0., 3., -2.], [1., 1., 1.]]
WEIGHTS = [1., 2., 1.]


def features(d):
    return 2 if d < 5 else 3


def training(k, d):
    """Data set number d; odd ones have three classes (the dedicated
    classifier only knows two), the last ones have three features. The classes
    are not always the same."""
    gen = np.random.RandomState(d)
    n = 4 + d % 3
    x = gen.randint(0 if k["cls"] == "nv" else -3, 4, size=(n, features(d))).astype(float)
    if k["cls"] in ("nv", "pf"):
        return (x,)
    if k["cls"] == "log":
        y = np.arange(n) % (3 if d % 2 and k["solver"] != "dedicated" else 2)
        y = (d // 2) + (1 + d % 3) * y
    else:
        y = gen.randint(1, 4, size=n).astype(float)
    return x, y


def flat(*vs):
    return [micro(v) for a in vs if a is not None for v in np.asarray(a, dtype=float).flatten()]


def probe(est, cls, d):
    x = np.array(PROBE)[:, :features(d)]
    if cls == "lr":
        return flat(est.predict(x))
    if cls == "log":
        return flat(est.predict_proba(x), est.predict(x))
    return flat(est.eval(x, np.array(WEIGHTS)) if cls == "wb" else est.eval(x))


def model(est, k, d, probed=True):
    icpt = getattr(est, "intercept_", None) if k["cls"] in ("lr", "log") else None
    return {"model": flat(est.coef_, icpt),
            "dual": flat(est.dual_var_, getattr(est, "robust_loss_", None)
                         if k["solver"] != "dedicated" else None),
            "probe": probe(est, k["cls"], d) if probed else []}


def build(k, rule, rules=None):
    if rule == 0:
        return make(k)
    if rules is None:
        return make(k, opt_cond=OptCondTorch(2, **RULES[rule]))
    return make(k, opt_cond=rules[rule])


def reference(key):
    k = key["k"]
    est, exc = guarded(lambda: build(k, key["rule"]).fit(*training(k, key["d"])))
    return dict({"raised": exc}, **(model(est, k, key["d"]) if exc == "" else {}))


class Fresh:
    """Computes references in processes forked from this one as it is now."""

    def __init__(self):
        ask, self.ask = os.pipe()
        self.answers, answer = os.pipe()
        self.known = {}
        if os.fork() == 0:
            os.close(self.ask)
            os.close(self.answers)
            self.serve(os.fdopen(ask), answer)
        os.close(ask)
        os.close(answer)
        self.answers = os.fdopen(self.answers)

    @staticmethod
    def serve(ask, answer):
        for line in ask:
            pid = os.fork()
            if pid == 0:
                try:
                    out = json.dumps(reference(json.loads(line)))
                except BaseException as e:
                    out = json.dumps({"raised": f"lost {e!r}"})
                data = (out + "\n").encode()
                while data:
                    data = data[os.write(answer, data):]
                os._exit(0)
            os.waitpid(pid, 0)
        os._exit(0)

    def __call__(self, key):
        name = json.dumps(key, sort_keys=True)
        if name not in self.known:
            os.write(self.ask, (name + "\n").encode())
            self.known[name] = json.loads(self.answers.readline())
        return self.known[name]


def warm():
    """Makes torch load what it loads on the first use of an optimizer."""
    p = nn.Parameter(pt.ones(1))
    for opt in (pt.optim.AdamW([p]), pt.optim.LBFGS([p])):
        (p ** 2).sum().backward()
        opt.step(lambda: (p ** 2).sum())


warm()
FRESH = Fresh()


def noise(n):
    if n == "seeds":
        pt.manual_seed(99)
        np.random.seed(99)
        random.seed(99)
    elif n == "draws":
        pt.rand(7)
        pt.randn(3)
        np.random.rand(5)
        random.random()
    elif n == "robust":
        net = nn.Linear(2, 1)
        x, y = pt.rand(4, 2), pt.rand(4, 1)
        dual = robustify(nn.MSELoss(reduction="none"), net, pt.tensor(.1), x, y, n_iter=(2, 3),
                         n_samples=3, seed=12)
        solve_dual_wdro(dual, EmpiricalDistributionWithLabels(
            m=4, samples_x=x.numpy(), samples_y=y.numpy()), OptCondTorch(2))
    elif n == "grad":
        net = nn.Linear(3, 1)
        net(pt.ones(2, 3)).sum().backward()


class Process:
    def __init__(self):
        self.slots = {}
        self.rules = {r: OptCondTorch(2, **p) for r, p in RULES.items()}

    def act(self, e):
        op, s = e["op"], e["s"]
        if op == "new":
            self.slots[s] = build(e["k"], e["rule"], self.rules)
        elif op == "clone":
            self.slots[s] = clone(self.slots[e["from"]])
        elif op == "set":
            old, new = (make(k).get_params(deep=False) for k in (e["old"], e["k"]))
            self.slots[s].set_params(**{n: v for n, v in new.items()
                                        if n != "opt_cond" and repr(v) != repr(old[n])})
        elif op == "noise":
            noise(e["n"])
        elif op == "fail":
            x = np.array([[0., 1.], [2., float("nan")], [1., 1.]])
            self.slots[s].fit(*((x,) if e["k"]["cls"] in ("nv", "pf") else (x, np.arange(3.))))
        else:
            k = e["key"]["k"]
            if op == "fit":
                self.slots[s].fit(*training(k, e["key"]["d"]))
            return model(self.slots[s], k, e["key"]["d"], op == "fit" or e["probe"])

    def step(self, e):
        now, exc = guarded(self.act, e)
        o = {"raised": exc}
        if e["op"] in ("fit", "look"):
            o["ref"] = FRESH(e["key"])
            if exc == "":
                o["now"] = now
        return o


def run(sc):
    process = Process()
    return [{"i": i + 1, "e": e, "o": process.step(e)} for i, e in enumerate(sc["es"])]
