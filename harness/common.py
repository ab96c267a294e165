"""Shared by the drivers: encoding of values, event recording, scenario running.

Drivers build inputs, call the public API of the code in /repo and record what is
observable.  They hold no expected values: the TLA+ trace specifications judge.
"""

import argparse
import json
import math
import os
import random
import struct
import sys
import traceback

import numpy as np

_PACK = struct.Struct(">d")
_UNPACK = struct.Struct(">ii")


def enc(x):
    """Encode a value for TLC: reals are integers or the two halves of the binary64."""
    if x is None:
        return "none"
    if isinstance(x, (bool, np.bool_)):
        return bool(x)
    if isinstance(x, (int, np.integer)):
        if -(10**9) < x < 10**9:
            return int(x)
        x = float(x)
    if isinstance(x, (float, np.floating)):
        x = float(x)
        if math.isfinite(x) and x == int(x) and abs(x) < 1e9:
            return int(x)
        return list(_UNPACK.unpack(_PACK.pack(x)))
    if isinstance(x, str):
        return x
    if isinstance(x, np.ndarray):
        if x.ndim == 0:
            return enc(x.item())
        return [enc(v) for v in x]
    if isinstance(x, dict):
        return {k: enc(v) for k, v in x.items() if v is not None}
    if isinstance(x, (list, tuple)):
        return [enc(v) for v in x]
    raise TypeError(f"cannot encode {type(x)}")


class Recorder:
    def __init__(self, path):
        self.file = open(path, "w")
        self.count = 0
        self.scenario = "none"

    def emit(self, event, **fields):
        rec = {"e": event, "id": self.scenario}
        for k, v in fields.items():
            if v is not None:  # absent values are absent fields (TLC cannot compare mixed types)
                rec[k] = enc(v)
        self.file.write(json.dumps(rec, separators=(",", ":")) + "\n")
        self.count += 1

    def close(self):
        self.file.close()


def parse_args():
    p = argparse.ArgumentParser()
    p.add_argument("--out", required=True)
    p.add_argument("--shard", type=int, default=0)
    p.add_argument("--shards", type=int, default=1)
    p.add_argument("--tier", default="quick")
    p.add_argument("--seed", type=int, default=1)
    p.add_argument("--prop", default="ALL")
    p.add_argument("--input", default=None)
    return p.parse_args()


def run_scenarios(scenarios, args):
    """scenarios: list of (name, function(rec)).  Each one is recorded; an exception the
    code raises on a valid input is itself an observation."""
    rec = Recorder(args.out)
    n = 0
    for i, (name, fn) in enumerate(scenarios):
        if i % args.shards != args.shard:
            continue
        rec.scenario = name
        n += 1
        try:
            fn(rec)
        except HarnessError:
            raise
        except Exception as e:  # noqa: BLE001
            tb = traceback.extract_tb(e.__traceback__)
            where = [f for f in tb if "/pterasoftware/" in f.filename]
            if not where and not getattr(e, "from_code", False):
                # not caused by the code under test
                if not isinstance(e, (AttributeError, TypeError, IndexError, KeyError, ValueError)):
                    raise
            last = where[-1] if where else tb[-1]
            rec.emit(
                "Exception",
                where=f"{os.path.basename(last.filename)}:{last.name}",
                type=type(e).__name__,
                msg=str(e)[:300],
            )
            sys.stderr.write(f"[{name}] " + traceback.format_exc() + "\n")
    rec.close()
    print(json.dumps({"scenarios": n, "events": rec.count}))


class HarnessError(Exception):
    """The driver itself is wrong."""


def rng_for(args, name):
    return random.Random(f"{args.seed}/{name}")
