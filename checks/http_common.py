"""Shared by the checks over HTTP: requests, the driver."""
from persistence_common import *
import concurrent.futures


def b(s):
    return list(s.encode("latin1"))


def cut_pieces(r, data, how=None):
    """The pieces in which the client sends."""
    if not data:
        return []
    how = how if how is not None else r.choice([0, 1, 2, 3])
    if how == 0:
        return [data]
    if how == 2 and len(data) <= 60:
        return [[x] for x in data]
    n = r.randrange(1, 3 if how == 1 else 6)
    at = sorted(r.randrange(0, len(data) + 1) for _ in range(n))
    return [p for p in (data[i:j] for i, j in zip([0] + at, at + [len(data)])) if p]
