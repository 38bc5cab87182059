"""Replays trainings through the estimators and through the functional
interface (spec/Wiring.tla)."""
from common import guarded, micro
import copy
import numpy as np
import torch as pt
import torch.nn as nn
import torch.nn.functional as fn
from estim import code, frac, make, regularisation, rows, steps
from skwdro.base.losses_torch import SimpleWeber
from skwdro.base.losses_torch.portfolio import SimplePortfolio
from skwdro.base.problems import (
    EmpiricalDistributionWithLabels, EmpiricalDistributionWithoutLabels
)
from skwdro.operations_research._newsvendor import CustomNewsvendorLoss
from skwdro.solvers.entropic_dual_torch import solve_dual_wdro
from skwdro.solvers.optim_cond import OptCondTorch
from skwdro.torch import robustify


class Logistic(nn.Module):
    reduction = "none"

    def forward(self, score, label):
        return fn.softplus(-score * label)


def flat(*arrays):
    return [micro(v) for a in arrays if a is not None
            for v in np.asarray(a, dtype=float).flatten()]


def result(coef, icpt, dual, obj):
    return {"coef": flat(coef, icpt), "dual": flat(dual)[0], "obj": micro(obj)}


def targets(k, s):
    if k["cls"] in ("nv", "pf"):
        return None
    y = rows(s["y"])
    if k["cls"] != "log":
        return y[:, None]
    if s["classes"] == 2:
        return np.where(y == 2, 1., -1.)[:, None]
    return np.eye(s["classes"])[np.array(s["y"]) - 1]


def functional(k, s, pb, given, rule, imp_samp):
    x, y = rows(s["x"]), targets(k, s)
    if k["cls"] == "nv":
        x = x.mean(axis=1, keepdims=True)
    d = x.shape[1]
    pt.manual_seed(pb["seed"])
    model = None
    if pb["loss"] == "newsvendor":
        loss = CustomNewsvendorLoss(*pb["lossparams"][0])
    elif pb["loss"] == "mean-risk":
        loss = SimplePortfolio(d, frac(pb["lossparams"][0]), frac(pb["lossparams"][1]))
    elif pb["loss"] == "weber":
        loss = SimpleWeber(d)
    else:
        loss = {"squared": nn.MSELoss(reduction="none"), "logistic": Logistic(),
                "cross-entropy": nn.CrossEntropyLoss(reduction="none")}[pb["loss"]]
        model = nn.Linear(d, s["classes"] if pb["loss"] == "cross-entropy" else 1,
                          bias=pb["bias"])
    dual = robustify(
        loss, model, pt.tensor(frac(pb["rho"])), pt.Tensor(x),
        pt.Tensor(y) if pb["labelled"] else None, post_sample=pb["post"], cost_spec=code(k),
        n_samples=pb["n"], seed=pb["seed"], imp_samp=imp_samp,
        epsilon=regularisation(pb["eps"]) if pb["eps"] else given.get("solver_reg"),
        sigma=pb["sig"] / 16 if pb["sig"] else given.get("sampler_reg"),
        l2reg=pb["l2"] / 16, n_iter=steps(pb["budget"]),
        learning_rate=None if pb["adaptive"] else pb["lr"] / 16,
        adapt="prodigy" if pb["adaptive"] else None,
        loss_reduces_spatial_dims=pb["loss"] == "cross-entropy")
    if pb["labelled"]:
        emp = EmpiricalDistributionWithLabels(m=len(x), samples_x=x, samples_y=y)
    else:
        emp = EmpiricalDistributionWithoutLabels(m=len(x), samples=x)
    res = solve_dual_wdro(dual, emp, rule)
    if model is not None:
        coef, icpt = model.weight, model.bias
    else:
        coef, icpt = {"newsvendor": lambda: loss.theta_, "mean-risk": lambda: loss.assets.weight,
                      "weber": lambda: loss.pos}[pb["loss"]](), None
    return result(coef.detach(), None if icpt is None else icpt.detach(),
                  res.dual_var, res.robust_loss)


def train(k, s, pb):
    tols = [t / 10 for t in s["rule"]]
    est = make(k, opt_cond=OptCondTorch(2, *tols)) if any(tols) else make(k)
    given = est.get_params()
    rules = [copy.deepcopy(given["opt_cond"]) for _ in range(2)]
    x, y = rows(s["x"]), rows(s["y"])
    est.fit(x) if k["cls"] in ("nv", "pf") else est.fit(x, y)
    icpt = est.intercept_ if pb["bias"] else None
    fit = result(est.coef_, icpt, est.dual_var_, est.robust_loss_)
    refs = [functional(k, s, pb, given, rule, imp)
            for rule, imp in zip(rules, (True, False))]
    return {"fit": fit, "refs": refs}


def run(sc):
    out, exc = guarded(train, sc["k"], sc["s"], sc["pb"])
    return [dict(sc, o=dict(out or {}, raised=exc))]
