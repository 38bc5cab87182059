"""Replays constructions of robust losses (spec/Hyper.tla)."""
from common import fx, guarded, micro
import torch as pt
import torch.nn as nn
from skwdro.torch import robustify
from skwdro.base.cost_decoder import cost_from_str
from skwdro.base.samplers.torch.cost_samplers import (
    LabeledCostSampler, NoLabelsCostSampler
)


class Affine(nn.Module):
    def __init__(self, dtype):
        super().__init__()
        self.w = nn.Parameter(pt.tensor([1., -.5], dtype=dtype))

    def forward(self, x):
        return (x * self.w).sum(-1, keepdim=True)


def squared(pred, target=None, reduction='none'):
    return (pred if target is None else pred - target) ** 2


def draw(sampler):
    z, zl = sampler.sample(5)
    return z.detach().double() if zl is None else pt.cat(
        [z.detach().double(), zl.detach().double()], -1)


def build(sc):
    k = sc["k"]
    dtype = pt.float64 if k["double"] else pt.float32
    x = pt.tensor([[1., 2.], [-1., .5], [0., -2.]], dtype=dtype)
    y = pt.tensor([[1.], [0.], [-1.]], dtype=dtype) if k["lab"] else None
    rho = pt.tensor(k["rho"][0] / k["rho"][1], dtype=dtype)
    typ = "inf" if k["typ"] == 0 else k["typ"]
    code = f"t-NLC-{k['pow']}-{typ}-2" if k["lab"] else f"t-NC-{k['pow']}-{typ}"
    if k["code"] != "full":
        code = f"t-{'NLC' if k['lab'] else 'NC'}-{k['pow']}-{typ}"
    spec = {"full": code, "default": None, "short": code[2:]}[k["code"]]
    sigma, eps = sc["sigma"][0] / sc["sigma"][1], sc["epsilon"] * 1e-9

    def loss(**kw):
        common = dict(post_sample=k["scheme"] == "post", cost_spec=spec, n_samples=k["n"],
                      seed=k["seed"], imp_samp=k["is"], reduction=None)
        if k["adapt"] != "default":
            common["adapt"] = None if k["adapt"] == "none" else k["adapt"]
        common.update(kw)
        return robustify(squared, Affine(dtype), rho, x, y, **common)
    given = {}
    if k["eps"]:
        given["epsilon"] = k["eps"] / 16 if k["eps"] > 0 else -k["eps"] * 1e-9
    if k["sig"]:
        given["sigma"] = k["sig"] / 16 if k["sig"] > 0 else -k["sig"] * 1e-6
    if k["lr"]:
        given["learning_rate"] = k["lr"] / 16
    if k["red"] != "default":
        given["reduction"] = k["red"]
    b = k["budget"]
    if b:
        given["n_iter"] = b[0] if len(b) == 1 else tuple(b)
    got = loss(**given)
    mine = draw(got.sampler)
    kind = LabeledCostSampler if k["lab"] else NoLabelsCostSampler
    args = (cost_from_str(code), x) + ((y,) if k["lab"] else ())
    ref = kind(*args, pt.tensor(sigma).to(x), k["seed"])
    gap = (mine - draw(ref)).abs().max() / sigma
    drawn = got.generate_zetas()[0].shape[0]
    # the value: same points, same samples as the loss built from the
    # expected values
    twin = loss(epsilon=eps, sigma=sigma, reduction="mean")
    plain = loss(**{**given, "reduction": "mean"})
    vals = []
    with pt.no_grad():
        for lo in (plain, twin):
            lo.imp_samp = False
            lo.lam.fill_(.75)
            zeta = x + pt.linspace(-1., 1., 4, dtype=dtype).view(4, 1, 1)
            zl = None if y is None else y + pt.linspace(-.5, 1., 4, dtype=dtype).view(4, 1, 1)
            if k["scheme"] == "post":
                pt.manual_seed(0)
                vals.append(float(lo(x, y)))
            else:
                vals.append(float(lo(x, y, zeta, zl)))
    groups = getattr(got.optimizer, "param_groups", None) or []
    n_iter = got.n_iter
    return {
        "eps": fx(got.epsilon, 1e9), "lam": fx(got.lam, 1e9), "lamrho": fx(got.lam * rho, 1e9),
        "trains": bool(got.lam.requires_grad), "rho": micro(got.rho),
        "n": int(got.n_samples), "drawn": int(drawn), "seedgap": micro(gap),
        "budget": [int(n_iter)] if isinstance(n_iter, int) else [int(v) for v in n_iter],
        "is": bool(got.imp_samp),
        "lr": micro(groups[0]["lr"]) if groups and "lr" in groups[0] else -1,
        "red": str(got.reduction),
        "twin": micro(abs(vals[0] - vals[1]) / (1 + abs(vals[1])))}


def run(sc):
    out, exc = guarded(build, sc)
    return [{"k": sc["k"], "o": dict(out or {}, raised=exc)}]
