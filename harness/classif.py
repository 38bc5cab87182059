"""Replays trainings of the classifier (spec/Classif.tla)."""
from common import guarded, micro
import math
import numpy as np
from estim import make, rows

ALPHABETS = {
    "pm": [-1, 1, 2, 5, 6, 8, 9, 11, 12, 14, 15, 17], "ints": list(range(12)),
    "far": [3, 7, 20, 31, 100, 101, 102, 1000, 1001, 4000, 9999, 70000],
    "neg": [-9, -5, -1, 4, 5, 6, 7, 8, 9, 10, 11, 12], "str": list("abcdefghijkl"),
    "words": ["ab", "abc", "b", "c", "c1", "c10", "c2", "d", "e", "ee", "z", "zz"],
    "floats": [-1., 0., 2., 3., 4., 5., 6., 7., 8., 9., 10., 11.], "bool": [False, True]}


def odds(p, q):
    if max(p, q) < 1e-30:   # beyond simple precision
        return float("nan")
    if p == q:
        return 0.
    return math.log(p / q) if p > 0 and q > 0 else (40. if p > q else -40.)


def train(k, s, name):
    alphabet = ALPHABETS[name][:s["classes"]]
    x, y = rows(s["x"]), np.array([alphabet[c - 1] for c in s["y"]])
    q = rows(s["q"]) * s["unit"][0] / s["unit"][1]
    est = make(k)
    est.fit(x, y)
    p, pred = est.predict_proba(q), est.predict(q)
    coef = np.asarray(est.coef_, dtype=float)
    b = 0. if est.intercept_ is None else est.intercept_
    icpt = np.asarray(b, dtype=float).flatten()
    if s["classes"] == 2:
        coef = np.vstack([np.zeros((1, s["d"])), coef.reshape(1, s["d"])])
        icpt = np.concatenate([[0.], icpt.reshape(1)])
    else:
        coef = coef.reshape(s["classes"], s["d"])
        icpt = np.zeros(s["classes"]) if icpt.size == 1 else icpt.reshape(s["classes"])
    alone = True
    for i in range(len(q)):
        p1 = est.predict_proba(q[i:i + 1])
        alone = alone and p1.shape == (1, s["classes"]) and np.allclose(p1[0], p[i], atol=1e-6)
        alone = alone and est.predict(q[i:i + 1])[0] == pred[i]

    def rank(v):
        return alphabet.index(v) + 1 if v in alphabet else 0
    # coefficients beyond the integers of the model: probabilities only
    reach = 1 + s["unit"][0] * s["d"] * np.abs(rows(s["q"])).max()
    wild = not (reach * np.abs(coef).max() < 500 and np.abs(icpt).max() < 50)
    if wild:
        coef, icpt = 0 * coef, 0 * icpt
    return {"wild": bool(wild), "classes": [rank(v) for v in est.classes_.tolist()],
            "m": {"w": [[micro(v) for v in r] for r in coef.tolist()],
                  "b": [micro(v) for v in icpt.tolist()]},
            "p": [[micro(v) for v in r] for r in p.tolist()],
            "lo": [[0] + [micro(odds(v, r[0])) for v in r[1:]] for r in p.tolist()],
            "pred": [rank(v) for v in pred.tolist()], "alone": bool(alone)}


def run(sc):
    runs, exc = guarded(lambda: [train(sc["k"], sc["s"], a) for a in sc["s"]["alph"]])
    return [dict(sc, o={"raised": exc, "runs": runs or []})]
