"""Filter plugins for the checks."""
from __future__ import annotations

from typing import Any, List


class Tag:
    """Wraps each value so that the call it came from is visible."""

    def __init__(self, suffix: str = "dflt", times: int = 1) -> None:
        self.suffix = suffix
        self.times = times

    def __call__(self, values: List[Any]) -> tuple:
        values = list(values)
        return tuple(("plugin", self.suffix, self.times, i, len(values), v) for i, v in enumerate(values))


class Mask:
    """A value fit for a text column."""

    def __init__(self, prefix: str) -> None:
        self.prefix = prefix

    def __call__(self, values: List[Any]):
        for i, v in enumerate(values):
            yield None if v is None else f"{self.prefix}{i}{len(str(v))}"


class Plus:
    """Adds to integers."""

    def __init__(self, n: int) -> None:
        self.n = n

    def __call__(self, values: List[Any]) -> list:
        return [None if v is None else v + self.n for v in values]


def function(**kwargs):
    """A factory that is no class."""
    return Tag(**kwargs)


def broken(**kwargs):
    raise RuntimeError("no such plugin today")
