"""Model of re.search / match / fullmatch on symbolic strings.

Python's own parser turns the (concrete) pattern into a tree; a set of (position, condition)
pairs is advanced through it, which is exact for "does it match" (no groups are returned).
Patterns using anything else are matched on a concretised string by the real module.
"""
import re
import warnings
from .symex import SymStr, and_, cmp_term, not_, or_
from . import symex

with warnings.catch_warnings():
    warnings.simplefilter("ignore")
    try:
        from re import _parser as P, _constants as C
    except ImportError:
        import sre_parse as P
        import sre_constants as C

_real = dict(search=re.search, match=re.match, fullmatch=re.fullmatch)


class Unsupported(Exception):
    pass


def add(d, i, c):
    if c is False:
        return
    d[i] = or_(d[i], c) if i in d else c


def charset(items, c):
    neg, t = False, []
    for op, a in items:
        if op is C.NEGATE:
            neg = True
        elif op is C.LITERAL:
            t.append(cmp_term(c, a, "eq"))
        elif op is C.RANGE:
            t.append(and_(cmp_term(a[0], c, "le"), cmp_term(c, a[1], "le")))
        else:
            raise Unsupported(op)
    r = or_(*t)
    return not_(r) if neg else r


def seq(tree, d, s, fl):
    for node in tree:
        d = step(node, d, s, fl)
    return d


def step(node, d, s, fl):
    op, a = node
    n, out = len(s), {}
    if op in (C.LITERAL, C.NOT_LITERAL, C.ANY, C.IN):
        for i, c in d.items():
            if i >= n:
                continue
            if op is C.LITERAL:
                t = cmp_term(s[i], a, "eq")
            elif op is C.NOT_LITERAL:
                t = cmp_term(s[i], a, "ne")
            elif op is C.ANY:
                t = True if fl & re.S else cmp_term(s[i], 10, "ne")
            else:
                t = charset(a, s[i])
            add(out, i + 1, and_(c, t))
        return out
    if op is C.AT:
        for i, c in d.items():
            if a in (C.AT_BEGINNING, C.AT_BEGINNING_STRING):
                t = i == 0
            elif a is C.AT_END_STRING:
                t = i == n
            elif a is C.AT_END:
                t = True if i == n else (cmp_term(s[i], 10, "eq") if i == n - 1 else False)
            else:
                raise Unsupported(a)
            add(out, i, and_(c, t))
        return out
    if op in (C.MAX_REPEAT, C.MIN_REPEAT):
        lo, hi, sub = a
        cur = d
        for _ in range(lo):
            cur = seq(sub, cur, s, fl)
        for i, c in cur.items():
            add(out, i, c)
        k = lo
        while cur and k < min(hi, n + lo + 1):
            cur = seq(sub, cur, s, fl)
            for i, c in cur.items():
                add(out, i, c)
            k += 1
        return out
    if op is C.SUBPATTERN:
        if a[1] or a[2]:
            raise Unsupported("flags")
        return seq(a[3], d, s, fl)
    if op is C.BRANCH:
        for b in a[1]:
            for i, c in seq(b, d, s, fl).items():
                add(out, i, c)
        return out
    raise Unsupported(op)


class _M:
    """a match of which only the existence is known"""


def term(kind, rex, s, flags=0):
    """condition under which re.<kind>(rex, s) finds a match; s: list of code points"""
    tree = P.parse(rex, int(flags))
    fl = tree.state.flags
    if fl & (re.I | re.M | re.X):
        raise Unsupported("flags")
    start = {i: True for i in range(len(s) + 1)} if kind == "search" else {0: True}
    end = seq(tree, start, s, fl)
    if kind == "fullmatch":
        return end.get(len(s), False)
    return or_(*end.values())


def _wrap(kind):
    def f(pattern, string, flags=0):
        if type(pattern) is SymStr:
            pattern = pattern.conc()
        if type(string) is SymStr:
            if isinstance(string._norm(), str) and type(string._norm()) is str:
                string = string._norm()
            elif isinstance(pattern, str):
                try:
                    t = term(kind, pattern, string.cs, flags)
                except Unsupported:
                    string = string.conc()
                else:
                    return _M() if symex.CTX.branch(t) else None
            else:
                string = string.conc()
        return _real[kind](pattern, string, flags)
    return f


def install():
    for k in _real:
        setattr(re, k, _wrap(k))
