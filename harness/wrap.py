"""Replays evaluations of the user's loss through the library (spec/Wrap.tla)."""
from common import flat, guarded
import torch as pt
import torch.nn as nn
from skwdro.torch import robustify
from skwdro.base.losses_torch import WrappedPrimalLoss

F64 = pt.float64


def dtype(c):
    return pt.float32 if c["f32"] else F64


def coordinates(c, w, u, y):
    base = (u * w).sum(-1, keepdim=True)
    if c["l"] > 0:
        base = base + c["v"] * y.sum(-1, keepdim=True)
    out = base + float(c["b"]) * pt.arange(1, c["k"] + 1, dtype=dtype(c))
    return out.mean(-1) if c["red"] else out


class Loss(nn.Module):
    def __init__(self, c):
        super().__init__()
        self.reduction = c["announced"]
        self.c = c
        self.w = nn.Parameter(pt.tensor([float(t) for t in c["w"]], dtype=dtype(c)))

    def forward(self, u, y=None):
        return coordinates(self.c, self.w, u, y)


class Transform(nn.Module):
    def __init__(self, c):
        super().__init__()
        self.t = nn.Parameter(pt.tensor([float(c["tr"])], dtype=dtype(c)))

    def forward(self, x):
        return self.t * x


def function(c):
    w = pt.tensor([float(t) for t in c["w"]], dtype=dtype(c))
    if c["l"] > 0:
        return lambda u, y, reduction='none': coordinates(c, w, u, y)
    return lambda u, reduction='none': coordinates(c, w, u, None)


def build(c, how):
    loss = Loss(c) if c["kind"] == "module" else function(c)
    tr = Transform(c) if c["tr"] else None
    x = pt.zeros(2, c["d"], dtype=dtype(c))
    y = pt.zeros(2, c["l"], dtype=dtype(c)) if c["l"] > 0 else None
    if how == "robustify":
        return robustify(loss, tr, pt.tensor(.5, dtype=dtype(c)), x, y, l2reg=c["l2"] / 8.,
                         loss_reduces_spatial_dims=c["red"],
                         post_sample=c["kind"] == "module" or c["tr"] != 0).primal_loss
    return WrappedPrimalLoss(loss, tr, None, c["l"] > 0, not c["red"], l2reg=c["l2"] / 8.)


def tensors(c, s):
    x, y = pt.tensor(s["x"], dtype=dtype(c)), None
    if c["l"] > 0:
        y = pt.tensor(s["y"], dtype=dtype(c))
    lead = {"point": [], "batch": [s["m"]], "stack": [s["n"], s["m"]],
            "stacks": [s["q"], s["n"], s["m"]]}[s["lay"]]
    return x.view(*lead, c["d"]), None if y is None else y.view(*lead, c["l"])


def run(sc):
    c, s = sc["c"], sc["s"]
    recs = []
    for how in ("robustify", "direct"):
        if how == "robustify" and c["kind"] == "function" and c["tr"] == 0:
            continue  # no parameter to optimise
        out, exc = guarded(lambda: build(c, how)(*tensors(c, s)))
        o = {"raised": exc, "vals": [], "shape": []}
        if not exc:
            o["vals"], o["shape"] = flat(out, 1_000_000), list(out.shape)
        recs.append({"c": c, "s": s, "o": o})
    return recs
