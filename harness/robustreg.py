"""Replays robust regressions (spec/RobustReg.tla)."""
from common import guarded, micro
import numpy as np
from estim import frac, rows
from skwdro.linear_models import LinearRegression, LogisticRegression


def solve(k, s):
    cls = LinearRegression if k["cls"] == "lr" else LogisticRegression
    unit = 10. ** k["unit"]
    est = cls(rho=frac(k["rho"]) * unit, fit_intercept=k["icpt"], solver="dedicated")
    x, y = rows(s["x"]), rows(s["y"])
    est.fit(x * unit, y)
    w = np.asarray(est.coef_, dtype=float).flatten() * unit
    b = float(np.asarray(est.intercept_, dtype=float).flatten()[0])
    o = {"w": [micro(v) for v in w], "b": micro(b)}
    if k["cls"] == "log":
        m = y * (x @ w + b)
        o["result"] = micro(est.result_)
        o["margins"] = [micro(v) for v in m]
        o["slopes"] = [micro(v) for v in 1 / (1 + np.exp(m))]
        o["losses"] = [micro(v) for v in np.logaddexp(0, -m)]
    return o


def run(sc):
    out, exc = guarded(solve, sc["k"], sc["s"])
    return [dict(sc, o=dict(out or {}, raised=exc))]
