"""Generators of contractions (independent of opt_einsum's own helpers). All randomness comes from the rng passed in."""
import string

LETTERS = string.ascii_lowercase + string.ascii_uppercase
UNI = [chr(c) for c in list(range(0xC0, 0x140)) + list(range(0x391, 0x3A9)) + list(range(0x4E00, 0x4E40))]


def names_for(rng, n, style=None):
    """n distinct label characters"""
    style = style or rng.choice(["seq", "shuf", "shuf", "mixed", "uni", "upper"])
    if style == "seq" and n <= 52:
        return list(LETTERS[:n])
    if style == "shuf" and n <= 52:
        return rng.sample(LETTERS, n)
    if style == "upper" and n <= 26:
        return rng.sample(string.ascii_uppercase, n)
    pool = list(LETTERS) + UNI if style != "uni" else UNI
    return rng.sample(pool, n)


def network(rng, n, nlab, max_rank=4, p_repeat=0.0, p_dup=0.0, p_scalar=0.03, p_out=0.35, kind=None):
    """terms (lists of labels 1..nlab) and out. kinds: 'random' hyper-network, 'graph' each label on two terms or one+out,
    'chain', 'batch' (a label on all terms), 'split' disconnected parts."""
    kind = kind or rng.choice(["random", "random", "graph", "graph", "chain", "batch", "split", "star"])
    terms = [[] for _ in range(n)]
    out = []
    labs = list(range(1, nlab + 1))
    if kind == "graph" or kind == "split":
        cut = rng.randint(1, max(1, n - 1))
        for x in labs:
            if kind == "split":
                part = list(range(cut)) if rng.random() < 0.5 else list(range(cut, n))
                part = part or list(range(n))
            else:
                part = list(range(n))
            ends = rng.sample(part, min(len(part), 2))
            if rng.random() < p_out or len(ends) < 2:
                terms[ends[0]].append(x)
                if rng.random() < 0.85:
                    out.append(x)
            else:
                for e in ends:
                    terms[e].append(x)
    elif kind == "chain":
        for k, x in enumerate(labs):
            i = k % n
            terms[i].append(x)
            if k < nlab - 1 or rng.random() < 0.5:
                terms[(i + 1) % n].append(x) if x not in terms[(i + 1) % n] else None
            if rng.random() < 0.15:
                out.append(x)
    elif kind == "star":
        c = rng.randrange(n)
        for x in labs:
            terms[c].append(x)
            o = rng.randrange(n)
            if o != c:
                terms[o].append(x)
            if rng.random() < p_out:
                out.append(x)
    else:
        for t in terms:
            if rng.random() < p_scalar:
                continue
            k = rng.randint(1, min(max_rank, nlab))
            t.extend(rng.sample(labs, k))
        if kind == "batch":
            b = rng.choice(labs)
            for t in terms:
                if b not in t:
                    t.append(b)
        used = sorted({x for t in terms for x in t})
        out = [x for x in used if rng.random() < p_out]
    for t in terms:
        if len(t) > max_rank + 2:
            del t[max_rank + 2:]
    if p_dup:
        for i in range(n):
            if rng.random() < p_dup:
                terms[i] = list(rng.choice(terms))
    if p_repeat:
        for t in terms:
            if t and rng.random() < p_repeat:
                t.append(rng.choice(t))
    for t in terms:
        rng.shuffle(t)
    used = {x for t in terms for x in t}
    out = [x for x in dict.fromkeys(out) if x in used]
    rng.shuffle(out)
    # relabel densely
    m = {x: i + 1 for i, x in enumerate(sorted(used))}
    return [[m[x] for x in t] for t in terms], [m[x] for x in out], len(m)


def eq_of(terms, out, names):
    s = ",".join("".join(names[x - 1] for x in t) for t in terms)
    return s if out is None else s + "->" + "".join(names[x - 1] for x in out)


def rand_path(rng, n, arity=None):
    """a random complete linear path: list of tuples"""
    path, m = [], n
    while True:
        if m == 1 and path and rng.random() < 0.9:
            break
        a = arity or rng.choice([2, 2, 2, 2, 3, 4, 1])
        if a == 1 and (m == 1 or rng.random() < 0.6):
            a = 1 if m == 1 else 2
        a = min(a, m)
        pos = rng.sample(range(m), a)
        path.append(tuple(pos))
        m = m - a + 1
        if m == 1 and rng.random() < 0.9:
            break
        if len(path) > 3 * n + 3:
            break
    while m > 1:
        path.append((0, 1))
        m -= 1
    return path


def all_binary_paths(n):
    if n == 1:
        yield []
        return
    for i in range(n):
        for j in range(i + 1, n):
            for rest in all_binary_paths(n - 1):
                yield [(i, j)] + rest


def prod(xs):
    r = 1
    for x in xs:
        r *= x
    return r


def two_places(rng, n, L):
    """a network of which every label is in two operands, or in one operand and the output"""
    terms, out = [[] for _ in range(n)], []
    for x in range(1, L + 1):
        i = rng.randrange(n)
        terms[i].append(x)
        if rng.random() < 0.4:
            out.append(x)
        else:
            terms[rng.choice([j for j in range(n) if j != i])].append(x)
    for t in terms:
        rng.shuffle(t)
    rng.shuffle(out)
    return terms, out, L
