"""Total orders: whether comparisons of finitely many values can all hold at once.

A comparison is (a, rel, b), rel a subset of "<=>"; a clause is a list of alternatives, each a list
of comparisons.  Comparisons of a total order can hold together exactly if no cycle of "<=" between
the values has a strict edge, after each "<>" has been given a direction.
"""
FLIP = {"<": ">", ">": "<", "=": "="}
ALL = frozenset("<=>")


def lt(a, b):
    return (a, frozenset("<"), b)


def le(a, b):
    return (a, frozenset("<="), b)


def eq(a, b):
    return (a, frozenset("="), b)


def ge(a, b):
    return (a, frozenset("=>"), b)


def gt(a, b):
    return (a, frozenset(">"), b)


def neg(c):
    return (c[0], ALL - c[1], c[2])


def consistent(cs):
    """A model of a conjunction of comparisons without "<>": ranks, or None."""
    edges = {}
    for a, r, b in cs:
        edges.setdefault(a, [])
        edges.setdefault(b, [])
        if not r:
            return False
        if r == frozenset("<>"):
            raise ValueError("direction not chosen")
        if r <= frozenset("<="):
            edges[a].append((b, "=" not in r))
        if r <= frozenset("=>"):
            edges[b].append((a, "=" not in r))
    # a strict edge inside a strongly connected component is a contradiction
    index, low, stack, on, comp = {}, {}, [], set(), {}

    def walk(v):
        index[v] = low[v] = len(index)
        stack.append(v)
        on.add(v)
        for w, _ in edges[v]:
            if w not in index:
                walk(w)
                low[v] = min(low[v], low[w])
            elif w in on:
                low[v] = min(low[v], index[w])
        if low[v] == index[v]:
            while True:
                w = stack.pop()
                on.discard(w)
                comp[w] = v
                if w == v:
                    break
    for v in edges:
        if v not in index:
            walk(v)
    return all(not s or comp[v] != comp[w] for v in edges for w, s in edges[v])


def sat(cs, clauses=()):
    """Can the comparisons and one alternative of every clause hold?"""
    plain, todo = [], list(clauses)
    for a, r, b in cs:
        if r == ALL:
            continue
        if a == b:
            if "=" not in r:
                return False
            continue
        if r == frozenset("<>"):
            todo.append([[(a, frozenset("<"), b)], [(a, frozenset(">"), b)]])
        else:
            plain.append((a, r, b))
    if not consistent(plain):
        return False
    if not todo:
        return True
    return any(sat(plain + list(alt), todo[1:]) for alt in todo[0])


def forces(cs, c, clauses=()):
    return not sat(list(cs) + [neg(c)], clauses)


def maximum(m, xs):
    """m is the greatest of xs."""
    return [le(x, m) for x in xs], [[[eq(m, x)] for x in xs]]
