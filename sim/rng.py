"""One pseudo random generator per scenario, derived from (seed, property, index) only."""
import random

def stream(*parts):
    return random.Random("/".join(str(p) for p in parts))   # seeded through sha512: no hash seed involved

def wchoice(rng, pairs):
    """pairs: [(value, weight)]"""
    total = sum(w for _, w in pairs)
    x = rng.random() * total
    for v, w in pairs:
        x -= w
        if x < 0:
            return v
    return pairs[-1][0]
