"""C11: captured httpx traffic replays identically, sync and async."""
from . import c10
from .c10 import judge, nontrivial, probes, NONTRIVIAL

COUNT = {"quick": 160, "thorough": 5000}


def scenarios(rng, run, tier, i):
    yield c10.scenario(rng, "httpx", 0.7)
