"""Replays trainings of the linear regression (spec/Regress.tla)."""
from common import guarded, micro
import numpy as np
from estim import make, rows


def train(k, s):
    est = make(k).fit(rows(s["x"]), rows(s["y"]))
    unit = s["unit"][0] / s["unit"][1]
    q = rows(s["q"]) * unit
    pred = np.asarray(est.predict(q))
    w = np.asarray(est.coef_, dtype=float).flatten()
    b = np.asarray(est.intercept_, dtype=float).flatten()
    null = np.asarray(est.predict(np.zeros((1, s["d"])))).flatten()
    alone = all(np.allclose(np.asarray(est.predict(q[i:i + 1])).flatten(), pred[i], rtol=1e-5,
                            atol=1e-6) for i in range(len(q)))
    # predictions within the integers of the model
    reach = 1 + s["d"] * np.abs(rows(s["q"])).max()
    wild = not (reach * np.abs(w).max() < 800 and np.abs(b).max() < 80)
    return {"w": [micro(v) for v in w], "b": micro(b[0]), "null": micro(null[0]),
            "pred": [micro(v / unit) for v in pred.flatten()], "rows": pred.shape == (len(q),),
            "alone": bool(alone), "wild": bool(wild)}


def run(sc):
    out, exc = guarded(train, sc["k"], sc["s"])
    return [dict(sc, o=dict(out or {}, raised=exc))]
