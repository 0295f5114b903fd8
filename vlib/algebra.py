"""Elements of the algebras of spec/Semiring.tla: objects with + and * among themselves and nothing else."""
import math

P = 46337


class _E:
    __slots__ = ("v",)
    __array_ufunc__ = None
    __hash__ = None

    def __init__(self, v):
        self.v = v

    def __add__(self, o):
        if type(o) is not type(self):
            raise TypeError("%s + %s" % (type(self).__name__, type(o).__name__))
        return type(self)(self.add(self.v, o.v))

    def __mul__(self, o):
        if type(o) is not type(self):
            raise TypeError("%s * %s" % (type(self).__name__, type(o).__name__))
        return type(self)(self.mul(self.v, o.v))

    # the elements are mutable: adding in place to one that the caller still holds corrupts its array
    def __iadd__(self, o):
        self.v = (self + o).v
        return self

    def __imul__(self, o):
        self.v = (self * o).v
        return self

    def __bool__(self):
        raise TypeError("element used as a truth value")

    def __eq__(self, o):
        raise TypeError("elements compared")


def _mk(name, add, mul):
    return type(name, (_E,), {"__slots__": (), "add": staticmethod(add), "mul": staticmethod(mul), "__hash__": None})


Elem = {
    "mod": _mk("Mod", lambda a, b: (a + b) % P, lambda a, b: a * b % P),
    "gauss": _mk("Gauss", lambda a, b: ((a[0] + b[0]) % P, (a[1] + b[1]) % P), lambda a, b: ((a[0] * b[0] - a[1] * b[1]) % P, (a[0] * b[1] + a[1] * b[0]) % P)),
    "maxplus": _mk("MaxPlus", max, lambda a, b: a + b),
    "bool": _mk("Bool", lambda a, b: a | b, lambda a, b: a & b),
    "gcdlcm": _mk("GcdLcm", math.gcd, lambda a, b: a // math.gcd(a, b) * b),
    "fuzzy": _mk("Fuzzy", max, min),
    "sets": _mk("Sets", lambda a, b: tuple((x + y) % 2 for x, y in zip(a, b)), lambda a, b: tuple(x * y for x, y in zip(a, b))),
}


def sample(rng, ring):
    if ring == "mod":
        return rng.randrange(P)
    if ring == "gauss":
        return (rng.randrange(P), rng.randrange(P))
    if ring == "maxplus":
        return rng.randint(-50, 50)
    if ring == "bool":
        return int(rng.random() < 0.4)
    if ring == "gcdlcm":
        return 2 ** rng.randint(0, 3) * 3 ** rng.randint(0, 2) * 5 ** rng.randint(0, 2) * 7 ** rng.randint(0, 1)
    if ring == "fuzzy":
        return rng.randint(-30, 30)
    return tuple(rng.randint(0, 1) for _ in range(4))
