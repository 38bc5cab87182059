"""Replays trainings on data in various representations (spec/Forms.tla)."""
from common import guarded, micro
import numpy as np
import pandas as pd
from estim import make

TYPES = {"f8": np.float64, "f4": np.float32, "i8": np.int64, "i4": np.int32, "i1": np.int8,
         "u1": np.uint8, "u4": np.uint32, "b1": np.bool_, "obj": object}
PLAIN = {"box": "array", "typ": "f8", "lay": "c"}


def typed(values, typ):
    return np.array(values).astype(TYPES[typ])


def laid(a, lay):
    if lay == "fortran":
        return np.asfortranarray(a)
    if lay == "strided":
        big = np.empty((2 * len(a),) + a.shape[1:], dtype=a.dtype)
        big[0::2], big[1::2] = a, a[::-1]
        return big[0::2]
    if lay == "reversed":
        return np.ascontiguousarray(a[::-1])[::-1]
    if lay == "readonly":
        a = a.copy()
        a.setflags(write=False)
    return a


def scalar(v, form):
    """The same number as a scalar of numpy, where it can hold it."""
    real, whole = (np.float64, np.int64) if form == "numpy64" else (np.float32, np.int32)
    if isinstance(v, tuple):
        return tuple(scalar(p, form) for p in v)
    if isinstance(v, bool) or not isinstance(v, (int, float)):
        return v
    if isinstance(v, int):
        return whole(v)
    return real(v) if real(v) == v else v


def build(k, form):
    est = make(k)
    if form == "python":
        return est
    return type(est)(**{n: scalar(v, form) for n, v in est.get_params(deep=False).items()})


def represent(values, f, den=1):
    a = typed(np.array(values) / den if den > 1 else values, f["typ"])
    if f["box"] == "list":
        return a.tolist()
    if f["box"] == "frame":
        return pd.DataFrame(a) if a.ndim == 2 else pd.Series(a)
    return laid(a, f["lay"])


def flat(*vs):
    return [micro(v) for a in vs if a is not None for v in np.asarray(a, dtype=float).flatten()]


def answers(est, cls, q, w):
    if cls == "lr":
        return flat(est.predict(q))
    if cls == "log":
        return flat(est.predict_proba(q))
    if cls == "wb":
        return flat(est.eval(q, w), est.score(q, w), est.eval(q))
    return flat(est.eval(q), est.score(q))


def life(k, s, fx, fy, fq, form, jolt=0.):
    x, y = represent(s["x"], fx, s["xden"]), represent(s["y"], fy, s["yden"])
    if jolt:
        # a few units in the last place of single floats
        x = x * (1. + jolt * np.where(np.indices(x.shape).sum(axis=0) % 2, -1., 1.))
    q = represent(s["q"], fq, s["qden"])
    w = represent([1] * len(s["q"]) if s["fy"]["typ"] == "b1" else
                  [1 + i % 3 for i in range(len(s["q"]))], fy, s["yden"])
    est = build(k, form)
    est.fit(*((x,) if k["cls"] in ("nv", "pf") else (x, y)))
    icpt = getattr(est, "intercept_", None) if k["cls"] in ("lr", "log") else None
    return {"model": flat(est.coef_, icpt),
            "dual": flat(est.dual_var_, getattr(est, "robust_loss_", None)
                         if k["solver"] != "dedicated" else None),
            "labels": flat(est.predict(q)) if k["cls"] == "log" else [],
            "probe": answers(est, k["cls"], q, w)}


def run(sc):
    k, s = sc["k"], sc["s"]
    ref, err = guarded(life, k, s, PLAIN, PLAIN, PLAIN, "python")
    jolt = [guarded(life, k, s, PLAIN, PLAIN, PLAIN, "python", v)[0] or ref
            for v in (3e-7, -2e-7)] if k["solver"] != "dedicated" else []
    now, exc = guarded(life, k, s, s["fx"], s["fy"], s["fq"], s["pf"])
    return [dict(sc, o={"raised": exc, "now": now or {}, "jolt": jolt if ref else [], "ref": dict(ref or {}, raised=err)})]
