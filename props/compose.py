"""Harnesses used as scenarios by other properties."""
import importlib


def module(name):
    return importlib.import_module('props.' + name)


def kind_of(cfg):
    return tuple(cfg.get(k) for k in ('mode', 'cer', 'shape', 'side', 'fmt',
                                      'what'))


def pick(name, tier, n, skip=()):
    """Up to n configurations of a harness, of as many kinds as possible and
    spread evenly within a kind; histories are left out."""
    groups = {}
    for cfg in module(name).configs(tier):
        if 'before' in cfg or cfg.get('mode') in skip:
            continue
        groups.setdefault(repr(kind_of(cfg)), []).append(cfg)
    out, level = [], 0
    order = list(groups.values())
    takes = [0] * len(order)
    while sum(takes) < n and any(t < len(g) for t, g in zip(takes, order)):
        for i, g in enumerate(order):
            if takes[i] < len(g) and sum(takes) < n:
                takes[i] += 1
    for t, g in zip(takes, order):
        for j in range(t):
            out.append(g[j * len(g) // t])
    return out
