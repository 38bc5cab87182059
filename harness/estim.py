"""Construction of the estimators from the configurations of
spec/EstimConfig.tla."""
import common  # noqa: F401  (import path)
import numpy as np
from skwdro.linear_models import LinearRegression, LogisticRegression
from skwdro.operations_research import NewsVendor, Portfolio, Weber

SOLVERS = {"post": "entropic_torch_post", "pre": "entropic_torch_pre",
           "torch": "entropic_torch", "dedicated": "dedicated",
           "unknown": "no_such_solver", "retired": "entropic"}
CLASSES = {"lr": LinearRegression, "log": LogisticRegression, "nv": NewsVendor,
           "pf": Portfolio, "wb": Weber}


def frac(v):
    return v[0] / v[1]


def sixteenth(v):
    return v / 16 if v else None


def regularisation(v):
    return v / 16 if v > 0 else 10. ** v


def steps(b):
    return None if not b else b[0] if len(b) == 1 else tuple(b)


def code(k):
    power, typ, *kappa = k["cost"]
    name = "NC" if k["cls"] in ("nv", "pf") else "NLC"
    kappa = f"-{kappa[0] / 4}" if kappa and name == "NLC" else ""
    return f"t-{name}-{power}-{'inf' if typ == 0 else typ}{kappa}"


def params(k):
    """Constructor parameters of the configuration."""
    p = dict(rho=frac(k["rho"]), cost=code(k), solver=SOLVERS[k["solver"]],
             learning_rate=sixteenth(k["lr"]), n_zeta_samples=k["nz"],
             random_state=k["seed"], n_iter=steps(k["budget"]))
    if k["eps"]:
        p["solver_reg"] = regularisation(k["eps"])
    if k["cls"] in ("lr", "log", "wb") and k["sig"]:
        p["sampler_reg"] = k["sig"] / 16
    if k["cls"] != "pf":
        p["l2_reg"] = k["l2"] / 16
    if k["cls"] in ("lr", "log"):
        p["fit_intercept"] = k["icpt"]
    if k["cls"] == "nv":
        p["k"], p["u"] = k["ku"]
    if k["cls"] == "pf":
        p["eta"], p["alpha"] = frac(k["eta"]), frac(k["alpha"])
        if k["supp"]:
            p["C"], p["d"] = -np.eye(2), np.full(2, float(k["supp"]))
    return p


def make(k, **over):
    p = params(k)
    p.update(over)
    return CLASSES[k["cls"]](**p)


def rows(x):
    return np.array(x, dtype=float)
