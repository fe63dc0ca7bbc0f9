"""What a check is made of.

A Scenario turns a seed into a *case* (a JSON value: configuration, inputs,
operations, schedule seed and fault list) and runs it in a fresh World.  A case
fully determines its run, so the case is the replay file, and minimising is
editing the case's lists while the same violation is reported.
"""
from __future__ import annotations

import random
from typing import Any, Dict, List, Optional, Tuple

from . import sim
from .sim import Discard, SimHang, Violation


class Run:
    """Handed to Scenario.run: the world plus counters for the evidence."""

    def __init__(self, world: "sim.World"):
        self.w = world
        self.checks = 0
        self.states = set()      # state / interleaving fingerprints reached
        self.nontrivial = False
        self.notes: Dict[str, int] = {}
        self.observed: List[Any] = []  # observable outcome, for determinism digests

    def check(self, cond, kind: str, msg="") -> None:
        self.checks += 1
        if not cond:
            raise Violation(kind, msg() if callable(msg) else str(msg))

    def note(self, k: str, n: int = 1) -> None:
        self.notes[k] = self.notes.get(k, 0) + n

    def state(self, *a) -> None:
        self.states.add(sim.digest(a))

    def see(self, *a) -> None:
        self.observed.append(a)

    def call(self, what: str, fn, *args, allow=(), **kw):
        """Call planner code.  Returns (value, None) or (None, exception) when
        the exception type is in `allow`; anything else it raises is a crash of
        the planner in a situation it must handle."""
        try:
            return fn(*args, **kw), None
        except SimHang as e:
            raise Violation("hang", f"{what}: {e}")
        except Violation:
            raise
        except allow as e:  # type: ignore
            return None, e
        except Exception as e:
            if not sim.in_repo_traceback(e):
                raise
            raise Violation(
                f"crash:{what}:{type(e).__name__}@{sim.where(e)}", f"{what} raised {type(e).__name__}: {e}"
            )


class Scenario:
    name = "?"
    #: case keys holding lists that the minimiser may shrink
    shrink: Tuple[str, ...] = ()
    #: scalar keys and the simplest value to try
    simplify: Dict[str, Any] = {}
    weight = 1.0
    cpu_limit = 60.0

    def gen(self, rng: random.Random, faulty: bool) -> Dict[str, Any]:
        raise NotImplementedError

    def run(self, case: Dict[str, Any], r: Run) -> None:
        raise NotImplementedError


REGISTRY: Dict[str, List[Scenario]] = {}
META: Dict[str, Dict[str, Any]] = {}


def register(prop: str, *scs: Scenario, **meta) -> None:
    REGISTRY.setdefault(prop, []).extend(scs)
    META.setdefault(prop, {}).update(meta)
