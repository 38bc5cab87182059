"""Replays evaluations of transport costs (spec/Costs.tla)."""
from common import guarded, flat
import torch as pt
from skwdro.base.costs_torch import NormCost, NormLabelCost


def norm_type(t):
    return float("inf") if t == 0 else float(t)


def make(k):
    if k["id"] == "NC":
        return NormCost(norm_type(k["typ"]), float(k["pow"]))
    if k["kd"] == 0:
        kappa = 10. ** k["kn"]
    else:
        kappa = float("inf") if k["kn"] == -1 else k["kn"] / k["kd"]
    return NormLabelCost(norm_type(k["typ"]), float(k["pow"]), kappa)


def tensors(k, s):
    dt = pt.float32 if s["f32"] else pt.float64
    # penalties 10^kn come with data or labels in a unit that balances them
    balance = k["kn"] if k["id"] == "NLC" and k["kd"] == 0 else 0
    ux, uy = 10. ** (s["unit"] + max(balance, 0)), 10. ** (s["unit"] + max(-balance, 0))
    x, z = ux * pt.tensor(s["x"], dtype=dt), ux * pt.tensor(s["zx"], dtype=dt)
    y = zy = None
    if s["l"] > 0:
        y, zy = uy * pt.tensor(s["y"], dtype=dt), uy * pt.tensor(s["zy"], dtype=dt)
    if s["lay"] == "flat":
        x, z = x[0], z[0, 0]
        y, zy = (None, None) if y is None else (y[0], zy[0, 0])
    elif s["lay"] == "batch":
        z, zy = z[0], None if zy is None else zy[0]
    else:
        x, y = x.unsqueeze(0), None if y is None else y.unsqueeze(0)
    return x, z, y, zy


def run(sc):
    k, s = sc["k"], sc["s"]
    recs = []
    for how in ("value", "call"):
        def evaluate():
            cost = make(k)
            args = tensors(k, s)
            v = cost.value(*args) if how == "value" else cost(*args)
            return v.double() * 10. ** (-s["unit"] * k["pow"])
        v, exc = guarded(evaluate)
        o = {"raised": exc, "vals": [], "shape": []}
        if not exc:
            o["vals"], o["shape"] = flat(v, 1_000_000), list(v.shape)
        recs.append({"k": k, "s": s, "o": o})
    return recs
