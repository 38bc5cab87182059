"""Replays runs watched by a stopping rule (spec/StopRule.tla)."""
from common import guarded
import torch as pt
import torch.nn as nn
from skwdro.torch import robustify
from skwdro.solvers.optim_cond import OptCondTorch


class Watch:
    def __init__(self, c):
        model = nn.Sequential(nn.Linear(2, 1), nn.Linear(1, 1))
        self.scale = 2. ** -c["scale"]
        self.sizes = [2, 1, 1, 1]
        b = c["budget"]
        self.dual = robustify(
            nn.MSELoss(reduction='none'), model, pt.tensor(1.), pt.zeros(1, 2), pt.zeros(1, 1),
            cost_spec="t-NC-2-2", n_iter=b if c["form"] == "int" else (b + 3, b))
        self.params = [p for layer in model for p in (layer.weight, layer.bias)]
        self.lam = self.dual.lam
        for p in (*self.params, self.lam):
            p.grad = pt.zeros_like(p)
        unit = self.scale if c["mode"] == "abs" else 1.
        self.rule = OptCondTorch(
            "inf" if c["order"] == 0 else c["order"], c["tolt"] / 4. * unit, c["toll"] / 4. * unit,
            monitoring=c["mon"], mode=c["mode"], metric=c["metric"])

    def split(self, v):
        return (pt.tensor(v).float() * self.scale).split(self.sizes)

    def put(self, o):
        """In-place updates, as optimizers do."""
        with pt.no_grad():
            for t, v, g in zip(self.params, self.split(o["t"]), self.split(o["gt"])):
                t.copy_(v.view_as(t))
                t.grad.copy_(g.view_as(t))
            self.lam.fill_(o["lam"] * self.scale)
            self.lam.grad.fill_(o["gl"] * self.scale)

    def do(self, e):
        if e["op"] == "reset":
            self.rule.reset()
            return False
        self.put(e["o"])
        return bool(self.rule(self.dual, e["it"]))


def run(sc):
    w, recs = Watch(sc["c"]), []
    for i, e in enumerate(sc["h"]):
        stop, exc = guarded(w.do, e)
        recs.append({"i": i + 1, "c": sc["c"], "e": e,
                     "o": {"raised": exc, "stop": bool(stop)}})
        if exc:
            break
    return recs
