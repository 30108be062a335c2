"""Regular expressions over text with symbolic characters."""
import re

try:
    from re import _constants as sc, _parser as sp
except ImportError:  # pragma: no cover
    import sre_constants as sc
    import sre_parse as sp

from . import core
from .core import land, lor


class Unsupported(Exception):
    pass


def char_in(ch, pred):
    """Condition that a (symbolic) character satisfies a predicate."""
    if not core.has_tok(ch):
        return bool(pred(ch))
    e = core.tok(ch)
    if type(e) is core.Num:
        raise Unsupported("number inside text")
    dom = core.ch_dom(ch)
    good = [c for c in dom if pred(c)]
    if not good:
        return False
    if len(good) == len(dom):
        return True
    if len(good) * 2 > len(dom):
        bad = [c for c in dom if c not in set(good)]
        return core.lnot(lor(*[core.ch_eq(ch, c) for c in bad]))
    return lor(*[core.ch_eq(ch, c) for c in good])


def _category(cat, c):
    name = str(cat)
    r = (
        c.isdigit()
        if "DIGIT" in name
        else c.isspace()
        if "SPACE" in name
        else (c.isalnum() or c == "_")
    )
    return not r if "NOT" in name else r


def single(op, arg, flags):
    """The predicate of a one-character expression, or None."""
    icase = flags & re.I
    fold = (lambda c: c.lower()) if icase else (lambda c: c)
    if op is sc.LITERAL:
        return lambda c: fold(c) == fold(chr(arg))
    if op is sc.NOT_LITERAL:
        return lambda c: fold(c) != fold(chr(arg))
    if op is sc.ANY:
        return lambda c: bool(flags & re.S) or c != "\n"
    if op is sc.CATEGORY:
        return lambda c: _category(arg, c)
    if op is sc.IN:
        neg = bool(arg) and arg[0][0] is sc.NEGATE
        items = arg[1:] if neg else arg

        def pred(c):
            cs = {c, c.lower(), c.upper()} if icase else {c}
            hit = False
            for o, a in items:
                if o is sc.LITERAL:
                    hit = hit or chr(a) in cs
                elif o is sc.RANGE:
                    hit = hit or any(a[0] <= ord(x) <= a[1] for x in cs)
                elif o is sc.CATEGORY:
                    hit = hit or _category(a, c)
                else:
                    raise Unsupported(str(o))
            return hit != neg

        return pred
    return None


def ends(nodes, text, i, flags):
    """{end: condition} of a sequence of nodes matched from position i."""
    cur = {i: True}
    for op, arg in nodes:
        nxt = {}
        for k, cond in cur.items():
            for e, c in step(op, arg, text, k, flags).items():
                v = land(cond, c)
                if v is not False:
                    nxt[e] = lor(nxt[e], v) if e in nxt else v
        cur = nxt
    return cur


def step(op, arg, text, i, flags):
    p = single(op, arg, flags)
    if p is not None:
        if i >= len(text):
            return {}
        c = char_in(text[i], p)
        return {} if c is False else {i + 1: c}
    if op is sc.AT:
        n = str(arg)
        if "BEGINNING" in n:
            return {i: True} if i == 0 else {}
        if "END" in n:
            return {i: True} if i == len(text) else {}
        raise Unsupported(n)
    if op is sc.SUBPATTERN:
        return ends(arg[3], text, i, (flags | arg[1]) & ~arg[2])
    if op is sc.BRANCH:
        out = {}
        for alt in arg[1]:
            for e, c in ends(alt, text, i, flags).items():
                out[e] = lor(out[e], c) if e in out else c
        return out
    if op in (sc.MAX_REPEAT, sc.MIN_REPEAT):
        lo, hi, body = arg
        hi = len(text) + 1 if hi is sc.MAXREPEAT else hi
        out, cur, n = {}, {i: True}, 0
        while True:
            if n >= lo:
                for e, c in cur.items():
                    out[e] = lor(out[e], c) if e in out else c
            if n >= hi or not cur or n > len(text) + lo + 1:
                return out
            nxt = {}
            for k, cond in cur.items():
                for e, c in ends(body, text, k, flags).items():
                    if e == k and n >= lo:
                        continue
                    v = land(cond, c)
                    if v is not False:
                        nxt[e] = lor(nxt[e], v) if e in nxt else v
            cur, n = nxt, n + 1
    raise Unsupported(str(op))


def fullmatch(pattern, text, flags=0):
    """Condition that the expression matches the whole text."""
    tree = sp.parse(pattern, flags)
    return ends(tree, text, 0, tree.state.flags).get(len(text), False)


def replace_class(pattern, repl, text, flags=0):
    """re.sub for an expression of one character."""
    tree = sp.parse(pattern, flags)
    if len(tree) != 1 or "\\" in repl:
        raise Unsupported(pattern)
    op, arg = tree[0]
    if op is sc.SUBPATTERN:
        if len(arg[3]) != 1:
            raise Unsupported(pattern)
        op, arg = arg[3][0]
    p = single(op, arg, tree.state.flags)
    if p is None:
        raise Unsupported(pattern)
    out = []
    for c in text:
        if not core.has_tok(c):
            out.append(repl if p(c) else c)
        elif type(core.tok(c)) is core.Num:
            raise Unsupported("number inside text")
        elif len(repl) == 1:
            out.append(
                core.ch_map(c, lambda x: repl if p(x) else x, ("sub", pattern, repl))
            )
        else:
            out.append(repl if core.branch(char_in(c, p)) else c)
    return "".join(out)
