"""Replays robust portfolio problems with bounds on the returns
(spec/RobustSupport.tla)."""
from common import guarded, micro
import numpy as np
from estim import frac, rows
from skwdro.operations_research import Portfolio

NONE = 99


def solve(k, xs):
    typ = "inf" if k["typ"] == 0 else k["typ"]
    one = np.eye(k["d"])
    bounds = [(-one[c], -v) for c, v in enumerate(k["low"]) if v != NONE]
    bounds += [(one[c], v) for c, v in enumerate(k["up"]) if v != NONE]
    bounds = [(k["scale"] * row, k["scale"] * v) for row, v in bounds]
    if k["order"] == "reversed":
        bounds.reverse()
    elif k["order"] == "twice":
        bounds += bounds
    est = Portfolio(rho=frac(k["rho"]), eta=frac(k["eta"]), alpha=frac(k["alpha"]),
                    C=np.array([b[0] for b in bounds], dtype=float),
                    d=np.array([b[1] for b in bounds], dtype=float),
                    cost=f"t-NC-1-{typ}", solver="dedicated").fit(rows(xs))
    tau = float(np.asarray(est.tau_).flatten()[0])
    # far thresholds are optimal only where the value does not depend on them
    tau = min(max(tau, -8.), 8.) if k["eta"][0] else 0.
    # multipliers beyond every slope are optimal only for a null radius
    lam = min(max(float(np.asarray(est.dual_var_).flatten()[0]), 0.), 40.)
    return {"w": [micro(v) for v in np.asarray(est.coef_, dtype=float).flatten()],
            "tau": micro(tau), "lam": micro(lam), "result": micro(est.result_)}


def run(sc):
    out, exc = guarded(solve, sc["k"], sc["x"])
    return [dict(sc, o=dict(out or {}, raised=exc))]
