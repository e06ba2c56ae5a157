"""Small bounded model checker core shared by every check.

A check module (mc/checks/pNN.py) declares FAMILIES: each family is a finite,
deterministically ordered space of cases (schedules, histories, graphs,
operation sequences, ...) plus a `run(case, st)` function that executes ONE
case on the real SPECULA code, compares every step with a reference model and
returns None (held) or a message (violated).  The core enumerates the whole
space, sharded over worker processes, counts what was covered, writes evidence
and turns violations into replay files.
"""
import hashlib
import importlib
import json
import os
import sys


class Family:
    def __init__(self, name, gen, run, precisions=(0,), what='', weight=1, timeout=60):
        self.name = name            # family name
        self.gen = gen              # gen(tier) -> iterable of JSON-able cases
        self.run = run              # run(case, st) -> None | str | (finding_id, str)
        self.precisions = precisions
        self.what = what            # one line: what is enumerated
        self.weight = weight        # number of shards wanted
        self.timeout = timeout      # seconds allowed for one case


class Stats:
    """Measured coverage of one worker."""

    def __init__(self):
        self.transitions = 0
        self.runs = 0               # executions inside a case, beyond the first
        self.states = set()
        self.outcomes = set()

    def step(self, n=1):
        self.transitions += n

    def state(self, *objs):
        """Record a (hashed) observed state of the implementation."""
        self.states.add(digest(objs))

    def outcome(self, *objs):
        self.outcomes.add(digest(objs))


def _feed(h, o):
    import numpy as np
    if isinstance(o, np.ndarray):
        h.update(str(o.shape).encode())
        h.update(str(o.dtype).encode())
        h.update(np.ascontiguousarray(o).tobytes())
    elif isinstance(o, (list, tuple)):
        h.update(b'(')
        for x in o:
            _feed(h, x)
            h.update(b',')
        h.update(b')')
    elif isinstance(o, dict):
        h.update(b'{')
        for k in o:
            _feed(h, k)
            _feed(h, o[k])
        h.update(b'}')
    else:
        h.update(repr(o).encode())
        h.update(b';')


def digest(o):
    h = hashlib.blake2b(digest_size=8)
    _feed(h, o)
    return int.from_bytes(h.digest(), 'big')


def load(pid):
    return importlib.import_module('mc.checks.' + pid.lower())


def known_findings(pid):
    """Return {finding_id: description} of the *recorded* findings of a property."""
    path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),
                        'KNOWN_FINDINGS.txt')
    out = {}
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                line = line.strip()
                if not line.startswith('known:'):
                    continue
                # known: property=P08 id=xyz description
                parts = line[len('known:'):].split(None, 2)
                kv = dict(p.split('=', 1) for p in parts[:2])
                if kv.get('property') == pid:
                    out[kv['id']] = parts[2] if len(parts) > 2 else ''
    return out


def silence():
    """Send everything the simulator prints to /dev/null; return a private stdout."""
    sys.stdout.flush()
    keep = os.fdopen(os.dup(1), 'w')
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    return keep
