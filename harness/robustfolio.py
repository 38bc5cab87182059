"""Replays robust portfolio problems (spec/RobustFolio.tla)."""
from common import guarded, micro
import numpy as np
from estim import frac, rows
from skwdro.operations_research import Portfolio


def solve(k, xs):
    typ = "inf" if k["typ"] == 0 else k["typ"]
    unit = 10. ** k["unit"]
    est = Portfolio(rho=frac(k["rho"]) * unit, eta=frac(k["eta"]), alpha=frac(k["alpha"]),
                    cost=f"t-NC-1-{typ}", solver="dedicated").fit(rows(xs) * unit)
    tau = float(np.asarray(est.tau_).flatten()[0]) / unit
    # far thresholds are optimal only where the value does not depend on them
    tau = min(max(tau, -8.), 8.) if k["eta"][0] else 0.
    return {"w": [micro(v) for v in np.asarray(est.coef_, dtype=float).flatten()],
            "tau": micro(tau), "result": micro(est.result_ / unit)}


def run(sc):
    out, exc = guarded(solve, sc["k"], sc["x"])
    return [dict(sc, o=dict(out or {}, raised=exc))]
