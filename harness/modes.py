"""Replays histories of a user's model under robust losses (spec/Modes.tla)."""
from common import guarded
import torch as pt
import torch.nn as nn
from skwdro.torch import robustify


class ScriptedFailure(RuntimeError):
    pass


class Fuse(nn.Module):
    """Dropout layer that can be told to fail."""

    def __init__(self):
        super().__init__()
        self.drop = nn.Dropout(.5)
        self.blown = False

    def forward(self, x):
        if self.blown:
            raise ScriptedFailure()
        return self.drop(x)


class LossModule(nn.Module):
    reduction = 'none'

    def __init__(self):
        super().__init__()
        self.scale = nn.Parameter(pt.tensor(1.5))

    def forward(self, pred, target=None):
        return self.scale * (pred if target is None else pred - target) ** 2


class Life:
    def __init__(self, k):
        pt.manual_seed(1)
        self.k = k
        self.fuse = Fuse()
        inner = nn.Sequential(nn.Linear(2, 1, bias=False))
        self.transform = nn.Sequential(nn.Linear(2, 2), self.fuse, inner)
        self.loss = LossModule()
        self.modules = [self.transform, self.transform[0], self.fuse, inner, inner[0], self.loss]
        self.params = [self.transform[0].weight, self.transform[0].bias, inner[0].weight,
                       self.loss.scale]
        self.first = [p.detach().clone() for p in self.params]
        self.dual = None

    def batch(self):
        x = pt.tensor([[1., -2.], [.5, 3.], [2., 1.]])
        y = pt.tensor([[1.], [-1.], [2.]]) if self.k["lab"] else None
        return x, y

    def evaluate(self):
        x, y = self.batch()
        if self.k["scheme"] == "post":
            return self.dual(x, y)
        z = pt.stack([x + .5, x - .25])
        return self.dual(x, y, z, None if y is None else pt.stack([y, y + .125]))

    def do(self, e):
        op, k = e["op"], self.k
        if op == "setrg":
            self.params[e["p"] - 1].requires_grad_(e["b"])
        elif op == "setmode":
            self.modules[e["p"] - 1].train(e["b"])
        elif op == "build":
            x, y = self.batch()
            self.dual = robustify(
                self.loss, self.transform, pt.tensor(k["r2"] / 2.), x, y,
                post_sample=k["scheme"] == "post", cost_spec=k["cost"], n_samples=3,
                epsilon=.5, sigma=.25, imp_samp=k["is"])
        elif op == "train":
            return self.dual.train(e["b"]) is self.dual
        elif op == "train0":
            return self.dual.train() is self.dual
        elif op == "eval":
            return self.dual.eval() is self.dual
        elif op == "forward":
            self.evaluate()
        elif op == "backward":
            self.evaluate().backward()
        elif op == "guess":
            self.dual.get_initial_guess_at_dual(*self.batch())
        elif op == "broken":
            self.fuse.blown = True
            try:
                self.evaluate()
            finally:
                self.fuse.blown = False
        return True


def run(sc):
    life, recs = Life(sc["k"]), []
    for i, e in enumerate(sc["h"]):
        ret, exc = guarded(life.do, e)
        recs.append({"i": i + 1, "k": sc["k"], "e": e, "o": {
            "raised": exc,
            "rg": [p.requires_grad for p in life.params],
            "mode": [m.training for m in life.modules],
            "kept": all(pt.equal(p, q) for p, q in zip(life.params, life.first)),
            "self": bool(ret),
            "top": bool(life.dual.training) if life.dual is not None else True}})
    return recs
