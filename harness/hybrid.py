"""Replays runs of the hybrid optimizers (spec/Hybrid.tla)."""
from common import LN2, flat, guarded
import torch as pt
from skwdro.solvers.hybrid_opt import HybridAdam, HybridSGD

F64 = pt.float64


def multiplicative(g):
    return "mwu" in g["marks"] or "mwu_simplex" in g["marks"]


def make(k):
    params, groups, idle = [], [], []
    for g in k["groups"]:
        x = pt.tensor(g["init"], dtype=F64)
        p = (2. ** x if multiplicative(g) else x / 2.).requires_grad_(True)
        # two tensors when there are enough coordinates, one per coordinate when
        # there are many (a simplex is one tensor)
        parts = [p] if g["n"] < 2 or "mwu_simplex" in g["marks"] else \
            [p[:1], p[1:]] if g["n"] < 4 else list(p.view(-1, 1))
        if g["shape"] == "col":
            parts = [q.view(-1, 1) for q in parts]
        parts = [q.detach().clone().requires_grad_(True) for q in parts]
        params.append(parts)
        extra = []
        if "mwu_simplex" not in g["marks"]:
            # a parameter that never receives a gradient
            extra = [pt.full((2,), .5, dtype=F64).requires_grad_(True)]
            idle.extend(extra)
        groups.append({"params": parts + extra, "lr": g["lr"] * (LN2 if multiplicative(g) else .5),
                       **{m: True for m in g["marks"]}})
    cls = HybridAdam if k["opt"] == "adam" else HybridSGD
    return cls(groups, lr=.125), params, idle


def run_opt(k, after):
    opt, params, idle = make(k)
    ret = True
    for row in k["grads"]:
        def objective():
            """Linear in the parameters, with the scripted gradients."""
            tot = pt.zeros((), dtype=F64)
            for parts, grad in zip(params, row):
                tot = tot + (pt.cat(parts).flatten() * pt.tensor(grad, dtype=F64)).sum()
            return tot

        def closure():
            opt.zero_grad()
            obj = objective()
            obj.backward()
            return obj.item()
        before = objective().item()
        if k["closure"]:
            got = opt.step(closure)
            ret = ret and got is not None and abs(got - before) < 1e-9 * (1. + abs(before))
        else:
            closure()
            opt.step()
        after.append([flat(pt.cat(parts), 1_000_000) for parts in params])
    return ret, all(bool((p - .5).abs().max() < 1e-12) for p in idle)


def run(sc):
    after = []
    out, exc = guarded(run_opt, sc["k"], after)
    ret, idle = out or (False, False)
    return [{"k": sc["k"], "o": {"refused": exc, "after": after, "ret": ret, "idle": idle}}]
