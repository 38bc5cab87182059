"""Replays requests of log-densities to samplers (spec/Density.tla)."""
from common import guarded, flat
import torch as pt
from samplers import make, labelled


def evaluate(k, s):
    n, m, nb = s["n"], s["m"], k["fam"] == "NB"
    x, cx = pt.tensor(s["x"]).float(), pt.tensor(s["cx"]).float()
    y, cy = pt.tensor(s["y"]).float(), pt.tensor(s["cy"]).float()
    zo = pt.tensor(s["zo"]).float().view(n, m, k["d"])
    yo = pt.tensor(s["yo"]).float().view(n, m, k["l"]) / (1000. if s["tiny"] else 1.)
    lab = labelled(k)

    def at(a, b):
        return a + zo, ((b * yo if nb else b + yo) if lab else None)

    def opt(t):
        return t if lab else None
    smp = make(k, x + 1., y if nb else y - 2., 3) if s["moves"] else make(k, x, y, 3)
    for _ in range(s["moves"]):
        smp.reset_mean(x, opt(y))
    here = smp.log_prob(*at(x, y))
    there = smp.log_prob_recentered(cx.unsqueeze(0), opt(cy.unsqueeze(0)), *at(cx, cy))
    flat_cy = cy.squeeze(-1) if k["l"] == 1 else cy
    plain = smp.log_prob_recentered(cx, opt(flat_cy), *at(cx, cy))
    same = smp.log_prob_recentered(x.unsqueeze(0), opt(y.unsqueeze(0)), *at(x, y))
    smp.reset_mean(cx, opt(cy))
    moved = smp.log_prob(*at(cx, cy))
    return here, there, same, moved, plain


def run(sc):
    out, exc = guarded(evaluate, sc["k"], sc["s"])
    o = {"raised": exc, "here": [], "there": [], "same": [], "moved": [], "plain": [], "shape": []}
    if not exc:
        for name, t in zip(("here", "there", "same", "moved", "plain"), out):
            o[name] = flat(t, 1_000_000)
        o["shape"] = list(out[0].shape)
    return [dict(sc, o=o)]
