"""Harness description shared by the drivers."""
from __future__ import annotations

from dataclasses import dataclass, field
from typing import Any, Callable


@dataclass
class Harness:
    name: str
    fn: Callable
    bounds: str
    quick: dict = field(default_factory=dict)
    thorough: dict = field(default_factory=dict)
    reach: tuple = ()  # tags that must be reached by at least one feasible path (vacuity guard)
    thorough_only: bool = False
    path_timeout: float = 20.0
    kind: str = "symx"  # symx | sched

    def params(self, tier):
        if tier == "thorough" and self.thorough:
            return {**self.quick, **self.thorough}
        return dict(self.quick)


@dataclass
class Property:
    id: str
    harnesses: list
    assumptions: list = field(default_factory=list)
    outside: str = ""
