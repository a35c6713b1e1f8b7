"""C23: results do not depend on hash ordering."""

import base64
import functools
import json
import os
import pickle
import subprocess
import sys
import typing as t

from mc import hashworker as hw
from mc.engine import REPO_SRC, TIER, VERIF, Recorder, Space, thorough

ASSUMPTIONS = [
    "the texts of error messages, which may name a set of keys, are not compared (the kind, place and origin of an error are)",
    "the iteration order of a set of names depends on nothing but the hash seed, the names and the order in which they were added",
]

SIZE = 4
LIMIT = 4000


def env(seed: int) -> t.Dict[str, str]:
    return {
        **os.environ, "PYTHONHASHSEED": str(seed), "PYTHONPATH": VERIF, "PYTHONDONTWRITEBYTECODE": "1", "DATABIND_SRC": REPO_SRC,
        "PYTHONPYCACHEPREFIX": "/nonexistent",
    }  # fmt: skip


ORDERS = """
import itertools, sys
names = sys.argv[1]
print(" ".join("".join(set(c)) for k in range(2, int(sys.argv[2]) + 1) for c in itertools.combinations(names, k)))
"""


@functools.lru_cache(None)
def seeds() -> t.Tuple[t.Tuple[int, ...], int, int]:
    """The smallest seeds that together realise every iteration order of every tracked set; how many orders those are."""
    size = 5 if thorough() else SIZE
    import math

    total = sum(math.comb(len(hw.NAMES), k) * math.factorial(k) for k in range(2, size + 1))
    seen: t.Set[t.Tuple[int, str]] = set()
    out = []
    n = 1
    while len(seen) < total and n < LIMIT:
        batch = range(n, n + 16)
        procs = [
            subprocess.Popen([sys.executable, "-S", "-s", "-c", ORDERS, "".join(hw.NAMES), str(size)], env=env(i), stdout=subprocess.PIPE)
            for i in batch
        ]
        for i, p in zip(batch, procs):
            assert p.stdout is not None
            text = p.stdout.read().decode().split()
            p.wait()
            new = {(k, o) for k, o in enumerate(text)} - seen
            if new and len(seen) < total:
                seen |= new
                out.append(i)
        n += 16
    return tuple(out), len(seen), total


def worker(seed: int, only: t.Optional[str] = None) -> t.Any:
    args = [sys.executable, "-s", "-m", "mc.hashworker", TIER if not thorough() else "thorough"] + ([only] if only else [])
    r = subprocess.run(args, env=env(seed), capture_output=True, timeout=3000)
    if r.returncode != 0:
        raise RuntimeError(f"seed {seed}: {r.stderr.decode()[-2000:]}")
    return json.loads(r.stdout) if only else pickle.loads(base64.b64decode(r.stdout))


@functools.lru_cache(None)
def reference() -> t.Dict[str, bytes]:
    return {k: h for k, h, _ in worker(0)[1]}


def run(seed: int, rec: Recorder) -> None:
    ref = reference()
    orders, results = worker(seed)
    rec.trans(len(results))
    for k, o in enumerate(orders):
        rec.state((k, o))
    if [k for k, _, _ in results] != list(ref):
        return rec.fail(f"seed {seed} ran other scenarios than seed 0")
    for k, h, label in results:
        if h != ref[k]:
            a, b = worker(0, k)[0][1], worker(seed, k)[0][1]
            return rec.fail(f"{k}\nwith hash seed 0:\n  {a}\nwith hash seed {seed}:\n  {b}", {"seed": seed, "scenario": k})
        rec.outcome({"ok": "ok", "re": "reject", "cr": "crash"}[label])
    rec.ok(len(results))


def spaces() -> t.List[Space]:
    chosen, got, total = seeds()
    return [
        Space("hash seeds", lambda: chosen, run,
              f"{len(chosen)} hash seeds that realise {got} of all {total} iteration orders of all sets of 2 to {5 if thorough() else SIZE} of {len(hw.NAMES)} names"
              " x every scenario (records, remainders, flattening, aliases, unions, typed dicts, enums, mappings, sets, field orders, errors)", timeout=3600),
    ]  # fmt: skip
