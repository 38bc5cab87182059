"""Replays the lives of robust loss objects (spec/DualLoss.tla)."""
from common import LN2, fx, flat, guarded
import torch as pt
import torch.nn as nn
from skwdro.torch import robustify
from skwdro.base.costs_torch import NormCost, NormLabelCost
from skwdro.base.samplers.torch.cost_samplers import (
    LabeledCostSampler, NoLabelsCostSampler
)


def dtype(c):
    return pt.float32 if c["f32"] else pt.float64


class Model(nn.Module):
    """x -> <w,x> + b + a |x|^2, with a trailing axis."""

    def __init__(self, w, b, a, dt):
        super().__init__()
        self.w = nn.Parameter(pt.tensor([float(t) for t in w], dtype=dt))
        self.b = nn.Parameter(pt.tensor(float(b), dtype=dt))
        self.a = nn.Parameter(pt.tensor(float(a), dtype=dt))

    def forward(self, x):
        return ((x * self.w).sum(-1, keepdim=True) + self.b
                + self.a * (x * x).sum(-1, keepdim=True))


class LabelLoss(nn.Module):
    reduction = 'none'

    def __init__(self, v):
        super().__init__()
        self.v = float(v)

    def forward(self, pred, target):
        return pred + self.v * target


def plain_loss(pred, reduction='none'):
    return pred * 1.


def scripted(base):
    class Scripted(base):
        """Draws the offsets it is told to, around its current centre."""
        script = None

        def __init__(self, *args, **kwargs):
            super().__init__(*args, **kwargs)
            self.now = (args[1], args[2] if base is LabeledCostSampler else None)
            if not hasattr(self, 'draws'):
                self.draws = []

        def reset_mean(self, xi, xi_labels):
            super().reset_mean(xi, xi_labels)
            self.now = (xi, xi_labels)

        def sample(self, n_samples):
            self.draws.append(int(n_samples))
            x, y = self.now
            zo, zy = self.script
            idx = [j % len(zo) for j in range(n_samples)]
            return stack(x, y, [zo[j] for j in idx], [zy[j] for j in idx] if zy else [])
    return Scripted


SLabeled, SNoLabels = scripted(LabeledCostSampler), scripted(NoLabelsCostSampler)


def twist(i):
    return 1. if i % 2 == 0 else -1.


def stack(x, y, zo, zy):
    tw = pt.tensor([[twist(i)] for i in range(x.size(0))], dtype=x.dtype)
    z = pt.stack([x + tw * pt.tensor([float(t) for t in o], dtype=x.dtype) for o in zo])
    if y is None:
        return z, None
    return z, pt.stack([y + tw * float(o) for o in zy])


def batch(c, bx, by):
    x = pt.tensor(bx, dtype=dtype(c))
    return x, (pt.tensor(by, dtype=dtype(c)).unsqueeze(-1) if c["lab"] else None)


def power_type(c):
    return float(c["pow"]), (float("inf") if c["typ"] == 0 else float(c["typ"]))


def kappa(c):
    return {-1: float("inf"), -3: 1. / 3.}.get(c["kap"], float(c["kap"]))


def code(c):
    t = "inf" if c["typ"] == 0 else str(c["typ"])
    s = f"t-{c['id']}-{c['pow']}-{t}"
    return s + (f"-{kappa(c)!r}" if c["id"] == "NLC" else "")


def build(c):
    x0, y0 = batch(c, c["bx0"], c["by0"])
    rho = pt.tensor(c["r2"] / (2. * 10. ** c["rs"]), dtype=dtype(c))
    eps, sigma = c["e0"] / LN2, (c["s"] / (2. * LN2)) ** .5
    model = Model(c["w"], c["b"], c["a"], dtype(c))
    loss = LabelLoss(c["v"]) if c["lab"] else plain_loss
    dual = robustify(
        loss, model, rho, x0, y0, post_sample=c["scheme"] == "post", cost_spec=code(c),
        n_samples=3, reduction=c["red"], epsilon=eps, sigma=sigma,
        l2reg=float(c["l2"]), imp_samp=c["is"])
    if c["scheme"] == "pre":
        sampler = dual.sampler
        draws, draw = [], sampler.sample

        def recording(k, *a):
            draws.append(int(k))
            return draw(k, *a)
        sampler.sample = recording
        sampler.draws = draws
    else:
        p, t = power_type(c)
        sig = pt.tensor(sigma, dtype=dtype(c))
        if c["lab"]:
            cost = NormLabelCost(t, p, kappa(c)) if c["id"] == "NLC" else NormCost(t, p)
            sampler = SLabeled(cost, x0, y0, sig, 7)
        else:
            sampler = SNoLabels(NormCost(t, p), x0, sig, 7)
        dual.sampler = sampler
    return dual, model, sampler


def observe(dual, model, sampler, c, e):
    x, y = batch(c, e["bx"], e["by"])
    dual.lam.data.fill_(float(e["lam"]))
    # samples given beforehand count by themselves, whatever the setting
    dual.n_samples = e["n"] if c["scheme"] == "post" else e["n"] + 2
    del sampler.draws[:]
    for p in dual.parameters():
        p.grad = None

    def call():
        if c["scheme"] == "pre":
            if e["given"]:
                z, zl = stack(x, y, e["zo"], e["zy"])
                return dual(x, y, z, zl)
            return dual(x, y)
        sampler.script = (e["zo"], e["zy"])
        return dual(x, y, reset_sampler=e["reset"])
    out, exc = guarded(call)
    o = {"raised": exc, "vals": [], "shape": [], "grads": False, "gl": 0, "gw": [],
         "draws": list(sampler.draws)}
    if exc:
        return o
    o["vals"] = flat(out, 1_000_000)
    o["shape"] = list(out.shape)
    _, exc = guarded(lambda: out.sum().backward())
    if exc:
        o["raised"] = "backward:" + exc
        return o
    o["grads"] = True

    def g(p):
        return pt.zeros_like(p) if p.grad is None else p.grad
    o["gl"] = fx(g(dual.lam).sum(), 10_000)
    o["gw"] = flat(pt.cat([g(model.w), g(model.b).view(1), g(model.a).view(1)]), 10_000)
    return o


def run(scenario):
    c = scenario["c"]
    built, exc = guarded(build, c)
    recs = []
    for k, e in enumerate(scenario["h"]):
        if exc:
            o = {"raised": "build:" + exc, "vals": [], "shape": [], "grads": False,
                 "gl": 0, "gw": [], "draws": []}
        else:
            o = observe(*built, c, e)
        recs.append({"k": k + 1, "c": c, "e": e, "o": o})
    return recs
