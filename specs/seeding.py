"""Reference for seeding."""
import numpy as np


def pick_seed(choices, weights):
    total = sum(weights)
    r = np.random.uniform(0, total)
    return choices[sum([1 if sum(weights[:n + 1]) < r else 0 for n in range(len(weights))])]


def pick_any(choices):
    """every seed location with the same probability"""
    r = np.random.uniform(0, 1) * len(choices)
    return choices[sum([1 if n + 1 < r else 0 for n in range(len(choices))])]


def exact(n, xs, ys):
    return [xs[i % len(xs)] for i in range(n)], [ys[i % len(ys)] for i in range(n)]


def anywhere(n, xs, ys):
    return [pick_any(xs) for i in range(n)], [pick_any(ys) for i in range(n)]
