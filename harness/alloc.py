"""Replays trainings of portfolios (spec/Decide.tla)."""
from common import guarded, micro
import warnings
import numpy as np
from estim import make, rows


def train(k, s):
    with warnings.catch_warnings(record=True) as caught:
        warnings.simplefilter("always")
        est = make(k).fit(rows(s["x"]))
    w = np.asarray(est.coef_, dtype=float).flatten()
    return {"w": [micro(v) for v in w],
            "diverged": bool(np.isnan(w).any() and len(caught) > 0)}


def run(sc):
    out, exc = guarded(train, sc["k"], sc["s"])
    return [dict(sc, o=dict(out or {}, raised=exc))]
