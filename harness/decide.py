"""Replays trainings and evaluations of decision problems (spec/Decide.tla)."""
from common import guarded, micro
import numpy as np
from estim import frac, make, rows


def plain(v):
    return isinstance(v, (int, float)) and not isinstance(v, bool)


def train(k, s):
    x, y = rows(s["x"]) / s["den"], rows(s["y"]) / s["wden"]
    est = make(k)
    est.fit(x, y) if k["cls"] == "wb" else est.fit(x)
    w = np.asarray(est.coef_, dtype=float).flatten()
    tau = 0.
    if k["cls"] == "pf":
        if k["solver"] == "dedicated":
            tau = float(np.asarray(est.tau_).flatten()[0])
        elif k["eta"][0]:
            # all returns are 100: the loss is -100 + eta * threshold
            tau = (est.eval(np.full((1, s["d"]), 100.)) + 100.) / frac(k["eta"])
    evals = []
    for e in s["sets"]:
        args = (rows(e["x"]) / s["den"],)
        args += (rows(e["y"]) / s["wden"],) if e["weighted"] else ()
        v, sc = est.eval(*args), est.score(*args)
        evals.append({"value": micro(v), "number": plain(v) and plain(sc),
                      "opposite": bool(sc == -v or (sc != sc and v != v))})
    bound = 4 if k["cls"] == "wb" else 20
    # runs that diverged are beyond the precision of the evaluation
    far = [v for v in getattr(getattr(est, "_wdro_loss", None), "parameters", list)()
           if not bool(v.detach().abs().max() < 1000)]
    wild = bool(far) or not (np.abs(w).max() < bound and abs(tau) < 5)
    return {"w": [micro(v) for v in w], "tau": micro(tau), "wild": bool(wild), "evals": evals}


def run(sc):
    out, exc = guarded(train, sc["k"], sc["s"])
    return [dict(sc, o=dict(out or {}, raised=exc))]
