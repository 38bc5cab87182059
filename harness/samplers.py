"""Replays lives of samplers (spec/Samplers.tla)."""
from common import fx, guarded
import random
import torch as pt
from skwdro.base.costs_torch import NormCost, NormLabelCost
from skwdro.base.samplers.torch.classif_sampler import (
    ClassificationNormalNormalSampler, ClassificationNormalIdSampler,
    ClassificationNormalBernouilliSampler
)
from skwdro.base.samplers.torch.cost_samplers import (
    LabeledCostSampler, NoLabelsCostSampler
)
from skwdro.base.samplers.torch.newsvendor_sampler import NewsVendorNormalSampler
from skwdro.base.samplers.torch.portfolio_sampler import (
    PortfolioLaplaceSampler, PortfolioNormalSampler
)

F32 = pt.float32
BIG_N = 5000


def spread(spr, h, d, prefix=""):
    if spr == "sigma":
        return {prefix + "sigma": h / 2.}
    tril = pt.eye(d, dtype=pt.float64)
    for i in range(d):
        tril[i, i] = 2. if d == 1 or i % 2 else 1.
        if i:
            tril[i, i - 1] = 1.
    cov = tril @ tril.T
    mats = {"tril": tril, "cov": cov, "prec": pt.linalg.inv(cov)}
    return {prefix + spr: mats[spr].float()}


def cost(k):
    t = float("inf") if k["typ"] == 0 else float(k["typ"])
    if k["id"] == "NC":
        return NormCost(t, float(k["pow"]))
    return NormLabelCost(t, float(k["pow"]),
                         {-1: float("inf"), -2: .5}.get(k["kap"], float(k["kap"])))


def centre(k, m, turn):
    """Points of the turn-th centre."""
    x = pt.tensor([[float(3 * turn - 2 * i + j) for j in range(k["d"])] for i in range(m)])
    if k["fam"] == "NB":
        y = pt.tensor([[1. if (i + turn) % 2 else -1.] for i in range(m)])
    else:
        y = pt.tensor([[float(turn - i + 2 * j) for j in range(k["l"])] for i in range(m)])
    return x, y


def make(k, x, y, seed):
    fam = k["fam"]
    if fam == "LC":
        return LabeledCostSampler(cost(k), x, y, pt.tensor(k["sh"] / 2.), seed)
    if fam == "UC":
        return NoLabelsCostSampler(cost(k), x, pt.tensor(k["sh"] / 2.), seed)
    kw = spread(k["spr"], k["sh"], k["d"])
    if fam == "NN":
        return ClassificationNormalNormalSampler(
            x, y, seed=seed, **kw, **spread(k["lspr"], k["lh"], k["l"], "l_"))
    if fam == "NI":
        return ClassificationNormalIdSampler(x, y, seed=seed, **kw)
    if fam == "NB":
        return ClassificationNormalBernouilliSampler(k["pq"] / 4., x, y, seed=seed, **kw)
    cls = {"NV": NewsVendorNormalSampler, "PN": PortfolioNormalSampler,
           "PL": PortfolioLaplaceSampler}[fam]
    return cls(x, seed=seed, **kw)


def labelled(k):
    return k["fam"] in ("NN", "NI", "NB", "LC")


def micro(t):
    return [fx(v, 1_000_000) for v in t.detach().double().flatten().tolist()]


def milli(t):
    return [fx(v, 1000) for v in t.detach().double().flatten().tolist()]


class Life:
    def __init__(self, k):
        self.k, self.objs, self.turn = k, {}, 0

    def draw(self, e, n):
        smp, x, y = self.objs[e["o"]]
        z, zl = next(iter(smp)) if e["op"] == "next" else smp.sample(n)
        return x, y, z, zl

    def do(self, e):
        k, op = self.k, e["op"]
        if op == "build":
            self.turn += 1
            x, y = centre(k, e["m"], self.turn)
            self.objs[e["o"]] = (make(k, x, y, {0: None, -1: 0}.get(e["seed"], e["seed"])), x, y)
        elif op == "reset":
            self.turn += 1
            x, y = centre(k, e["m"], self.turn)
            smp = self.objs[e["o"]][0]
            smp.reset_mean(x, y if labelled(k) else None)
            self.objs[e["o"]] = (smp, x, y)
        elif op == "seed":
            pt.manual_seed(e["v"])
            random.seed(e["v"])
        elif op == "burn":
            pt.rand(3)
        elif op == "stat":
            return self.stat(e)
        else:
            x, y, z, zl = self.draw(e, e["n"])
            o = {"shape": list(z.shape), "off": micro(z - x), "lshape": [], "lab": []}
            if zl is not None:
                o["lshape"] = list(zl.shape)
                o["lab"] = micro(zl / y if k["fam"] == "NB" else zl - y)
            return o
        return {}

    def stat(self, e):
        k = self.k
        x, y, z, zl = self.draw(e, BIG_N)
        off = (z - x).double().reshape(-1, k["d"])
        n = off.size(0)

        def cov(t):
            c = t.T @ t / n
            return [milli(r) for r in c]
        o = {"n": n, "mean": milli(off.mean(0)), "cov": cov(off), "abs": milli(off.abs().mean(0)),
             "lmean": [], "lcov": [], "lexact": True, "lsym": True, "flips": 0}
        if labelled(k):
            lo = (zl - y).double().reshape(-1, k["l"])
            o["lmean"], o["lcov"] = milli(lo.mean(0)), cov(lo)
            o["lexact"] = bool((lo == 0).all())
            if k["fam"] == "NB":
                ratio = zl / y
                o["lsym"] = bool(((ratio == 1) | (ratio == -1)).all())
                o["flips"] = fx((ratio < 0).double().mean(), 1000)
        return o


def run(sc):
    life, recs = Life(sc["k"]), []
    for i, e in enumerate(sc["h"]):
        o, exc = guarded(life.do, e)
        recs.append({"i": i + 1, "k": sc["k"], "e": e, "o": dict(o or {}, raised=exc)})
        if exc:
            break
    return recs
