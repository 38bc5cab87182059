"""Replays decodings of cost codes (spec/Codes.tla)."""
from common import guarded, micro
import torch as pt
import torch.nn as nn
from skwdro.base.cost_decoder import (
    cost_from_str, parse_code_torch, cost_from_parse_torch
)
from skwdro.torch import robustify

F64 = pt.float64
ORIGIN, LABEL = pt.tensor([[1., -2.]], dtype=F64), pt.tensor([[5.]], dtype=F64)
PROBES = [([0., 2.], 0.), ([0., 2.], 2.), ([3., 4.], 0.), ([3., 4.], 2.)]


class Loss(nn.Module):
    reduction = 'none'

    def forward(self, x, y):
        return x + y


def functional(x, reduction='none'):
    return x * 1.


def decode(dec, code, lab):
    if dec == "str":
        return cost_from_str(code)
    if dec == "parse":
        return cost_from_parse_torch(parse_code_torch(code, lab))
    return robustify(
        Loss() if lab else functional, nn.Linear(2, 1, dtype=F64), pt.tensor(.5, dtype=F64),
        ORIGIN, LABEL if lab else None, cost_spec=code, adapt=None).cost


def probe(cost):
    vals = []
    for dx, dy in PROBES:
        v = cost.value(ORIGIN, ORIGIN + pt.tensor([dx], dtype=F64),
                       LABEL, LABEL - dy)
        vals.append(micro(v))
    return vals


def run(sc):
    code = None if sc["parts"] == ["none"] else "-".join(sc["parts"])
    if code is None and sc["dec"] == "str":
        return []
    vals, exc = guarded(lambda: probe(decode(sc["dec"], code, sc["lab"])))
    return [dict(sc, o={"raised": exc, "vals": vals or []})]
