"""Python definitions of builtins over lists of unknown length (used by pv/rt.py; loops in them are proved by induction like any other)."""


def map1(f, xs):
    return [f(x) for x in xs]


def map2(f, xs):
    return [f(*x) for x in xs]


def filter1(f, xs):
    return [x for x in xs if f(x)]


def filter0(xs):
    return [x for x in xs if x]


class Count:
    """itertools.count kept in an object"""

    def __init__(self, start=0, step=1):
        self.at = start
        self.by = step

    def __iter__(self):
        return self

    def __next__(self):
        v = self.at
        self.at = v + self.by
        return v
