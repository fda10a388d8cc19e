"""Helpers shared by the property modules."""

import numpy as np


def scale(tier, quick, thorough=None):
    return quick if tier == "quick" else (thorough if thorough is not None else quick * 12)


def take(rng, xs, k):
    xs = list(xs)
    if k >= len(xs):
        return xs
    return [xs[i] for i in sorted(rng.choice(len(xs), k, replace=False))]


def pick(rng, xs):
    xs = list(xs)
    return xs[int(rng.integers(len(xs)))]


def crng(tier, seed, pid):
    """Generator for building the case list (not for running it)."""
    return np.random.default_rng([seed, pid, 77 if tier == "quick" else 78])
