"""Shared by the harness modules: import of the code under test, encoding."""
import os
import sys
import warnings

REPO = os.environ.get("SKWDRO_REPO", "/repo")
sys.path.insert(0, REPO)
sys.dont_write_bytecode = True
warnings.filterwarnings("ignore")

import torch as pt  # noqa: E402
import skwdro  # noqa: E402

_where = os.path.realpath(os.path.dirname(skwdro.__file__ or list(skwdro.__path__)[0]))
if not _where.startswith(os.path.realpath(REPO) + os.sep):
    sys.exit(f"skwdro imported from {_where} instead of {REPO}")

pt.set_num_threads(1)

LN2 = 0.6931471805599453
BIG = 1_000_000_000
NAN = 999_999_999


def fx(v, scale):
    """A real as an integer in 1/scale units, saturated for the TLC integers."""
    v = float(v)
    if v != v:
        return NAN
    if v == float("inf") or v * scale > BIG - 10:
        return BIG
    if v == float("-inf") or v * scale < -(BIG - 10):
        return -BIG
    return int(round(v * scale))


def micro(v):
    return fx(v, 1_000_000)


def myria(v):
    return fx(v, 10_000)


def flat(t, scale):
    return [fx(v, scale) for v in t.detach().double().flatten().tolist()]


def guarded(fun, *args, **kwargs):
    """(result, name of the exception raised or '')."""
    try:
        return fun(*args, **kwargs), ""
    except Exception as e:  # whatever the code under test raises is observed
        return None, type(e).__name__
