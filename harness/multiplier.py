"""Replays lives of dual multipliers (spec/Multiplier.tla)."""
from common import guarded
import numpy as np
import torch as pt
import torch.nn as nn
from skwdro.torch import robustify
from skwdro.base.problems import EmpiricalDistributionWithLabels
from skwdro.solvers.entropic_dual_torch import solve_dual_wdro
from skwdro.solvers.optim_cond import OptCondTorch

X = np.array([[1., -2.], [.5, 3.], [2., 1.], [-1., .25]], dtype=np.float32)
Y = np.array([[1.], [-1.], [2.], [.5]], dtype=np.float32)


def sign(v):
    v = float(np.asarray(v).flatten()[0])
    return 2 if v != v else (v > 0) - (v < 0)


class Life:
    def __init__(self, k):
        pt.manual_seed(2)
        kind = k["kind"]
        self.model = nn.Linear(2, 1)
        self.x, self.y = pt.tensor(X), pt.tensor(Y)
        self.dual = robustify(
            nn.MSELoss(reduction='none'), self.model, pt.tensor(k["r"] / 4.), self.x, self.y,
            post_sample=kind != "lbfgs", cost_spec=f"t-NLC-{k['pow']}-2", n_samples=4, seed=5,
            learning_rate=10. ** k["lr"] if k["lr"] else None, epsilon=.25,
            adapt=kind if kind in ("prodigy", "mechanic") else None, n_iter=(2, 4),
            imp_samp=k["is"])
        self.kind = kind
        if kind == "lbfgs":
            self.samples = self.dual.generate_zetas()

    def params(self):
        return [*self.model.parameters(), self.dual.lam]

    def push(self, g):
        v = float((g > 0) - (g < 0)) * 10. ** (abs(g) - 3)

        def closure():
            self.dual.optimizer.zero_grad()
            for p in self.params():
                if p.requires_grad:
                    p.grad = pt.full_like(p, v)
            return v
        if self.kind == "lbfgs":
            self.dual.optimizer.step(closure)
        else:
            closure()
            self.dual.optimizer.step()

    def train(self):
        def closure():
            self.dual.optimizer.zero_grad()
            obj = (self.dual(self.x, self.y, *self.samples) if self.kind == "lbfgs"
                   else self.dual(self.x, self.y))
            obj.backward()
            return obj.item()
        if self.kind == "lbfgs":
            self.dual.optimizer.step(closure)
        else:
            closure()
            self.dual.optimizer.step()

    def do(self, e):
        if e["op"] == "push":
            for _ in range(20):
                self.push(e["g"])
        elif e["op"] == "zero":
            with pt.no_grad():
                self.dual.lam.zero_()
        elif e["op"] == "train":
            self.train()
        elif e["op"] == "guess":
            self.dual.get_initial_guess_at_dual(self.x, self.y)
        elif e["op"] == "solve":
            return sign(solve_dual_wdro(
                self.dual, EmpiricalDistributionWithLabels(len(X), X, Y),
                OptCondTorch(2)).dual_var)
        return 0


def run(sc):
    life, recs = Life(sc["k"]), []
    recs.append({"i": 0, "k": sc["k"], "e": {"op": "build", "g": 0},
                 "o": {"raised": "", "sign": sign(life.dual.lam.detach()), "rep": 0}})
    for i, e in enumerate(sc["h"]):
        rep, exc = guarded(life.do, e)
        recs.append({"i": i + 1, "k": sc["k"], "e": e,
                     "o": {"raised": exc, "sign": sign(life.dual.lam.detach()), "rep": rep or 0}})
        if exc or not all(p.isfinite().all() for p in life.params()):
            break
    return recs
