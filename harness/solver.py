"""Replays runs of the solving routine (spec/Solver.tla): the optimizer moves
the parameters where the script says and records the gradients it is given,
the stopping rule answers what the script says."""
from common import flat, fx, guarded
import math
import warnings
import numpy as np
import torch as pt
import torch.nn as nn
from skwdro.torch import robustify
from skwdro.base.problems import (
    EmpiricalDistributionWithLabels, EmpiricalDistributionWithoutLabels
)
from skwdro.base.samplers.torch.cost_samplers import (
    LabeledCostSampler, NoLabelsCostSampler
)
from skwdro.solvers.entropic_dual_torch import solve_dual_wdro
from skwdro.solvers.optim_cond import OptCondTorch


class Affine(nn.Module):
    def __init__(self, d):
        super().__init__()
        self.w = nn.Parameter(pt.zeros(d))
        self.b = nn.Parameter(pt.zeros(1))

    def forward(self, x):
        return (x * self.w).sum(-1, keepdim=True) + self.b


def radius(r):
    return float(r) if r >= 0 else 10. ** r


def squared(pred, target=None, reduction='none'):
    return (pred if target is None else pred - target) ** 2


def scripted(base):
    class Scripted(base):
        """One sample per point, at its scripted offset."""
        offs = None

        def __init__(self, *args, **kwargs):
            super().__init__(*args, **kwargs)
            self.now = (args[1], args[2] if base is LabeledCostSampler else None)

        def reset_mean(self, xi, xi_labels):
            super().reset_mean(xi, xi_labels)
            self.now = (xi, xi_labels)

        def sample(self, n_samples):
            x, y = self.now
            z = (x + self.offs).unsqueeze(0).expand(n_samples, -1, -1)
            return z, (None if y is None else y.unsqueeze(0).expand(n_samples, -1, -1))
    return Scripted


SLabeled, SNoLabels = scripted(LabeledCostSampler), scripted(NoLabelsCostSampler)


class Rule(OptCondTorch):
    def __init__(self, stop_at, metric):
        super().__init__(2, metric=metric)
        self.stop_at, self.asked = stop_at, 0

    def __call__(self, dual_loss, it_number):
        self.asked += 1
        return self.asked == self.stop_at


class Recorder(pt.optim.Optimizer):
    def __init__(self, model, lam, k, warm):
        super().__init__([model.w, model.b, lam], {})
        self.model, self.lam, self.k, self.warm = model, lam, k, warm
        self.total, self.base, self.steps = 0, 0, []

    def place(self, i):
        k = self.k

        def cyc(s):
            return s[(i - 1) % len(s)]
        with pt.no_grad():
            self.model.w.copy_(pt.tensor(cyc(k["ws"])).float())
            self.model.b.fill_(float(cyc(k["bs"])))
            if k["r"] != 0:
                self.lam.fill_(float(cyc(k["ls"])))

    def step(self, closure=None):
        if closure is not None:
            closure()
        m = self.model
        vals = [*m.w.tolist(), *m.b.tolist(), float(self.lam)]
        num = all(abs(v) < 1e6 for v in vals)

        def grad(p):
            return pt.zeros_like(p) if p.grad is None else p.grad
        lam = vals[-1]
        self.steps.append({
            "num": num and all(math.isfinite(g) for p in (m.w, m.b) for g in grad(p).tolist()),
            "wi": [int(v) for v in vals[:-2]] if num else [0] * self.k["d"],
            "bi": int(vals[-2]) if num else 0,
            "li": int(lam) if num and lam == int(lam) and lam < 1000 else -1,
            "gw": flat(grad(m.w), 1_000_000), "gb": fx(grad(m.b), 1_000_000),
            "gl": fx(grad(self.lam), 1_000_000)})
        self.total += 1
        self.place(self.total)
        if len(self.steps) == self.warm + self.k["nanAt"] and self.k["nanAt"]:
            with pt.no_grad():
                self.model.b.fill_(float("nan"))
        elif len(self.steps) == self.warm + self.k["infAt"] and self.k["infAt"]:
            with pt.no_grad():
                self.model.b.fill_(1e30)


def solve(k):
    x, y = np.array(k["x"], dtype=np.float32), np.array(k["y"], dtype=np.float32)[:, None]
    if k["lab"]:
        p_hat = EmpiricalDistributionWithLabels(len(x), x, y)
    else:
        p_hat = EmpiricalDistributionWithoutLabels(len(x), x)
    tx, ty = pt.tensor(x), pt.tensor(y) if k["lab"] else None
    model = Affine(k["d"])
    n = k["n"]
    dual = robustify(
        squared, model, pt.tensor(radius(k["r"])), tx, ty,
        post_sample=k["scheme"] == "post", cost_spec=f"t-NC-{k['pow']}-{k['pow']}",
        n_samples=1, epsilon=.5, sigma=.5, n_iter=n[0] if k["form"] == "int" else tuple(n),
        imp_samp=k["is"])
    kind = SLabeled if k["lab"] else SNoLabels
    args = (dual.cost, tx) + ((ty,) if k["lab"] else ()) + (pt.tensor(.5), 3)
    dual.sampler = kind(*args)
    dual.sampler.offs = pt.tensor(k["off"]).float()
    warm = (3 * n[0]) // 10 if k["form"] == "int" else n[0]
    opt = Recorder(model, dual.lam, k, warm)
    dual.optimizer = opt
    runs = []
    for _ in range(2 if k["twice"] else 1):
        opt.base, opt.steps = opt.total, []
        opt.place(opt.total if opt.total else 1)
        with warnings.catch_warnings(record=True) as caught:
            warnings.simplefilter("always")
            res = solve_dual_wdro(dual, p_hat, Rule(k["stopAt"], k["metric"]))
            warned = any("NaN" in str(w.message) for w in caught)
            warned = warned or (k["nanAt"] > 0 and len(caught) > 0)
        zeta = dual.sampler.offs + tx
        with pt.no_grad():
            if k["scheme"] == "post":
                after = dual(tx, ty)
            else:
                after = dual(tx, ty, zeta.unsqueeze(0), None if ty is None else ty.unsqueeze(0))
        runs.append({
            "base": opt.base, "steps": opt.steps, "warned": warned,
            "coef": [fx(v, 1_000_000) for v in np.asarray(res.coef).flatten().tolist()],
            "dual": [fx(v, 1_000_000) for v in np.asarray(res.dual_var).flatten().tolist()],
            "obj": fx(res.robust_loss, 1_000_000), "after": fx(after, 1_000_000),
            "is": bool(dual.imp_samp) or (k["is"] and k["pow"] != 2)})
    return runs


def run(sc):
    runs, exc = guarded(solve, sc["k"])
    return [{"k": sc["k"], "o": {"raised": exc, "runs": runs or []}}]
