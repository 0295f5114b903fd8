"""Requests in every input format, for C16 and C17. A request is described independently of its format by its terms: a term is a list of
labels (ints) and Ellipsis; out is None (implicit), or such a list."""
import json
from vlib import gen

DOTS = [46, 46, 46]


def codes(s):
    return [ord(ch) for ch in s]


def render(rng, terms, out, names, spaces):
    def one(t):
        return "".join("..." if x is Ellipsis else names[x] for x in t)
    s = ",".join(one(t) for t in terms)
    if out is not None:
        s += "->" + one(out)
    if spaces:
        toks, i = [], 0
        while i < len(s):
            k = 3 if s.startswith("...", i) else 2 if s.startswith("->", i) else 1
            toks.append(s[i:i + k])
            i += k
        s = "".join((" " * rng.choice([0, 0, 0, 1, 2])) + t for t in toks) + rng.choice(["", " "])
    return s


def label_pool(rng, k, small=False):
    """k sorted distinct objects usable as interleaved labels"""
    if small:
        return sorted(rng.sample(range(0, 52), k))
    r = rng.random()
    if r < 0.35:
        return sorted(rng.sample(range(0, 52), k))
    if r < 0.55:
        return sorted(rng.sample(range(-500, 5000), k))
    if r < 0.75:
        return sorted(rng.sample(["a", "b", "aa", "ab", "Z", "z", "i1", "i10", "i2", "left", "right", "ü", "字", "_", "k k", "", "0", "10", "9"], k))
    if r < 0.85:
        return sorted(rng.sample([(i, j) for i in range(4) for j in range(4)], k))
    if r < 0.95:
        return sorted(rng.sample([0.5, 1, 1.5, 2, -3, -0.25, 7, 1e9, 12, 13.5], k))
    return [chr(ord("a") + i) for i in range(k)]


def interleave(rng, ops, terms, out, pool, np):
    args = []
    kind = rng.choice(["list", "list", "tuple", "np", "str"])

    def lst(t):
        l = [Ellipsis if x is Ellipsis else pool[x] for x in t]
        if kind == "tuple":
            return tuple(l)
        if kind == "np" and all(type(x) is int for x in l) and l:
            return np.array(l)
        if kind == "str" and all(type(x) is str and len(x) == 1 for x in l):
            return "".join(l)
        return l
    for o, t in zip(ops, terms):
        args += [o, lst(t)]
    if out is not None:
        args.append(lst(out))
    return args


def inter_codes(terms, out):
    """the string an interleaved request denotes; label x is written as character 1000+x"""
    s = []
    for i, t in enumerate(terms):
        s += ([44] if i else [])
        for x in t:
            s += DOTS if x is Ellipsis else [1000 + x]
    if out is not None:
        s += [45, 62]
        for x in out:
            s += DOTS if x is Ellipsis else [1000 + x]
    return s


def structured(rng, maxn=4):
    """terms, out, over labels 0..L-1, with or without ellipses"""
    n = rng.randint(1, maxn)
    L = rng.randint(1, 5)
    ell = rng.random() < 0.6
    terms = []
    for _ in range(n):
        t = [rng.randrange(L) for _ in range(rng.choice([0, 1, 1, 2, 2, 3]))] if rng.random() < 0.25 else rng.sample(range(L), min(L, rng.choice([0, 1, 1, 2, 2, 3])))
        if ell and rng.random() < 0.7:
            t.insert(rng.randint(0, len(t)), Ellipsis)
        terms.append(t)
    used = sorted({x for t in terms for x in t if x is not Ellipsis})
    if rng.random() < 0.45:
        out = None
    else:
        out = [x for x in used if rng.random() < 0.5]
        rng.shuffle(out)
        if any(Ellipsis in t for t in terms) or rng.random() < 0.03:
            out.insert(rng.randint(0, len(out)), Ellipsis)
    return terms, out


def valid_shapes(rng, terms, zero=True):
    """shapes that fit the terms (broadcast dimensions included)"""
    size = {}
    eln = rng.randint(0, 2)
    esz = [rng.choice([2, 2, 3, 1] + ([0] if zero and rng.random() < 0.2 else [])) for _ in range(3)]
    shapes = []
    for t in terms:
        named = [x for x in t if x is not Ellipsis]
        rep = {x for x in named if named.count(x) > 1}
        sh = []
        for x in t:
            if x is Ellipsis:
                k = rng.randint(0, eln)
                sh += [1 if rng.random() < 0.2 else d for d in esz[3 - k:]]
            else:
                size.setdefault(x, rng.choice([2, 2, 3, 3, 1] + ([0] if zero and rng.random() < 0.15 else [])))
                sh.append(1 if x not in rep and rng.random() < 0.12 else size[x])
        shapes.append(sh)
    # a repeated label must have its full size in that operand; other operands may broadcast
    return shapes


def tokens_to_terms(s):
    """best effort: terms of a raw code string (for choosing shapes); None if it makes no sense"""
    s = [x for x in s if x != 32]
    cut = next((i for i, x in enumerate(s) if x in (45, 62)), len(s))
    terms, t, i = [], [], 0
    ins = s[:cut]
    while i < len(ins):
        if ins[i] == 44:
            terms.append(t)
            t = []
        elif ins[i] == 46:
            while i + 1 < len(ins) and ins[i + 1] == 46:
                i += 1
            t.append(Ellipsis)
        else:
            t.append(ins[i])
        i += 1
    terms.append(t)
    return terms


def arrays(np, rng, shapes):
    return [np.array([rng.choice([-1, 0, 1, 1, 2, 3]) for _ in range(gen.prod(s))], dtype=float).reshape(s) for s in shapes]


def as_list_ok(s):
    return 0 not in s[:-1]


def loosen(np, rng, ops):
    """some arrays as Python lists or scalars"""
    return [a.tolist() if rng.random() < 0.15 and as_list_ok(a.shape) else a for a in ops]


def shape_forms(np, rng, shapes):
    """the same shapes as tuples, lists, or tuples of NumPy integers"""
    r = rng.random()
    if r < 0.6:
        return [tuple(s) for s in shapes]
    return [rng.choice([tuple, list, list, lambda s: tuple(np.int64(d) for d in s)])(s) for s in shapes]
