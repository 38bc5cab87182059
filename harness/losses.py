"""Replays evaluations of the built-in losses (spec/Losses.tla)."""
from common import LN2, flat, guarded
import torch as pt
from skwdro.base.losses_torch import (
    LogisticLoss, QuadraticLoss, NewsVendorLoss_torch, SimpleWeber
)
from skwdro.base.losses_torch.portfolio import SimplePortfolio
from skwdro.operations_research._newsvendor import CustomNewsvendorLoss

F64 = pt.float64


def fill(param, values):
    with pt.no_grad():
        param.copy_(pt.tensor(values, dtype=F64).view_as(param))


def dtype(p):
    return pt.float32 if p["f32"] else F64


def linear(cls, p, unit):
    l2 = float(p["l2"]) / 8. / unit if p["l2"] != -2 else None
    loss = cls(None, d=p["d"], l2reg=l2, fit_intercept=p["icpt"]).to(dtype(p))
    fill(loss.linear.weight, [w * unit for w in p["w"]])
    if p["icpt"]:
        fill(loss.linear.bias, [p["b"] * unit])
    return loss


def evaluate(f, p, s):
    shape = [s["m"]] if s["lay"] == "batch" else [s["n"], s["m"]]
    x = pt.tensor(s["x"], dtype=dtype(p)).view(*shape, p["d"])
    y = pt.tensor(s["y"], dtype=dtype(p)).view(*shape, 1)
    if f == "logistic":
        return linear(LogisticLoss, p, LN2).value(x, y) / LN2
    if f == "quadratic":
        return linear(QuadraticLoss, p, 1.).value(x, y)
    if f == "newsvendor":
        l2 = float(p["l2"]) / 8. if p["l2"] != -2 else None
        loss = NewsVendorLoss_torch(None, k=p["k"], u=p["u"], l2reg=l2).to(dtype(p))
        fill(loss.theta, p["w"])
        return loss(x)
    if f == "newsvendor_estimator":
        loss = CustomNewsvendorLoss(float(p["k"]), float(p["u"])).to(dtype(p))
        fill(next(loss.parameters()), p["w"])
        return loss(x)
    if f == "weber":
        loss = SimpleWeber(p["d"]).to(dtype(p))
        fill(loss.pos, p["w"])
        return loss(x, y)
    loss = SimplePortfolio(p["d"], float(p["eta"]), p["an"] / p["ad"]).to(dtype(p))
    for name, prm in loss.named_parameters():
        fill(prm, [p["tau"]] if name == "tau" else [w * LN2 for w in p["w"]])
    return loss(x)


def run(sc):
    out, exc = guarded(evaluate, sc["f"], sc["p"], sc["s"])
    o = {"raised": exc, "vals": [], "shape": []}
    if not exc:
        o["vals"], o["shape"] = flat(out, 1_000_000), list(out.shape)
    return [dict(sc, o=o)]
