"""Replays robust newsvendor problems (spec/RobustOrder.tla)."""
from common import guarded, micro
import numpy as np
from skwdro.operations_research import NewsVendor


def order(k, xs):
    unit = 10. ** k["unit"]
    x = np.array(xs, dtype=float)[:, None] / 2 * unit
    est = NewsVendor(rho=k["rho"][0] / k["rho"][1] * unit, k=k["ku"][0], u=k["ku"][1],
                     solver="dedicated")
    return micro(np.asarray(est.fit(x).coef_, dtype=float).flatten()[0] / unit)


def run(sc):
    t, exc = guarded(order, sc["k"], sc["x"])
    return [dict(sc, o={"raised": exc, "t": 0 if t is None else t})]
