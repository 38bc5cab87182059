"""Replays scenarios on the implementation and writes the observed trace.

usage: worker.py MODULE SCENARIOS.ndjson TRACE.ndjson INDEX.json
The index gives, for each trace line, the scenario it comes from, and lists
the scenarios that could not be replayed to their end (crash or hang)."""
import importlib
import json
import os
import signal
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import common  # noqa: E402,F401

MAX_LOST = 2


class Hang(BaseException):
    pass


def on_alarm(signum, frame):
    raise Hang()


def main():
    mod = importlib.import_module(sys.argv[1])
    limit = getattr(mod, "SCENARIO_SECONDS", 60)
    signal.signal(signal.SIGALRM, on_alarm)
    index, lost = [], []
    with open(sys.argv[2]) as fin, open(sys.argv[3], "w") as fout:
        for i, line in enumerate(fin):
            signal.alarm(limit)
            try:
                recs = mod.run(json.loads(line))
            except Hang:
                lost.append([i, "hang", f"not finished after {limit} s"])
                recs = []
            except Exception:
                lost.append([i, "crash", traceback.format_exc()[-3000:]])
                recs = []
            finally:
                signal.alarm(0)
            for rec in recs:
                fout.write(json.dumps(rec) + "\n")
                index.append(i)
            if len(lost) >= MAX_LOST:
                break
    with open(sys.argv[4], "w") as f:
        json.dump({"index": index, "lost": lost}, f)


if __name__ == "__main__":
    main()
