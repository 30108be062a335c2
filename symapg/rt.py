"""Run-time support of the instrumented program.

The instrumented code calls these functions for comparisons, calls,
containers, subscripts and formatting; everything else runs natively.
"""
import builtins
import collections
import enum
import functools
import math
import operator
import re
import struct
import types

from . import core
from .core import (
    ST,
    Hang,
    Num,
    SymBool,
    SymBytes,
    SymFloat,
    SymInt,
    ch_dom,
    ch_map,
    concretise_any,
    concretise_nums,
    concretise_str,
    has_num,
    has_tok,
    is_sym,
    land,
    lnot,
    lor,
    text_eq,
    text_lt,
    tok,
)

_real_type = type


def fn(name):
    ST.functions[name] = ST.functions.get(name, 0) + 1
    tick()


def tick():
    ST.ticks += 1
    if ST.ticks > ST.tick_limit:
        raise Hang("step budget exhausted")


# --------------------------------------------------------------------------
# equality and ordering
# --------------------------------------------------------------------------


def _isstr(x):
    return _real_type(x) is str or isinstance(x, str)


def sym_inside(x, depth=0):
    t = _real_type(x)
    if t in (SymInt, SymBool, SymFloat, SymBytes):
        return True
    if isinstance(x, str):
        return has_tok(x)
    if depth < 3 and isinstance(x, (list, tuple)):
        return any(sym_inside(y, depth + 1) for y in x)
    if depth < 3 and isinstance(x, (set, frozenset)):
        return any(sym_inside(y, depth + 1) for y in set.__iter__(x)) if isinstance(x, set) else any(sym_inside(y, depth + 1) for y in x)
    if depth < 3 and isinstance(x, dict):
        return any(
            sym_inside(k, depth + 1) or sym_inside(v, depth + 1)
            for k, v in dict.items(x)
        )
    return False


def eq(a, b):
    """a == b as bool or SymBool."""
    ta, tb = _real_type(a), _real_type(b)
    if isinstance(a, str) and isinstance(b, str):
        if has_tok(a) or has_tok(b):
            if isinstance(a, enum.Enum):
                a = str.__str__(a.value)
            if isinstance(b, enum.Enum):
                b = str.__str__(b.value)
            return text_eq(a, b)
        return a == b
    if ta in (list, tuple) and tb is ta:
        if not (sym_inside(a) or sym_inside(b)):
            return a == b
        if len(a) != len(b):
            return False
        return land(*[eq(x, y) for x, y in zip(a, b)])
    if isinstance(a, (set, frozenset)) and isinstance(b, (set, frozenset)):
        if not (sym_inside(a) or sym_inside(b)):
            return set.__eq__(set(a), set(b))
        a, b = ASet(a), ASet(b)
        return len(a) == len(b) and all(x in b for x in a)
    if isinstance(a, dict) and isinstance(b, dict):
        if not (sym_inside(a) or sym_inside(b)):
            return dict.__eq__(a, b)
        if len(a) != len(b):
            return False
        b = ADict(b)
        return land(*[k in b and eq(v, b[k]) for k, v in a.items()])
    return a == b


def lt(a, b):
    if isinstance(a, str) and isinstance(b, str) and (has_tok(a) or has_tok(b)):
        return text_lt(a, b)
    ta, tb = _real_type(a), _real_type(b)
    if ta in (list, tuple) and tb is ta and (sym_inside(a) or sym_inside(b)):
        for x, y in zip(a, b):
            if truth(eq(x, y)):
                continue
            return lt(x, y)
        return len(a) < len(b)
    return a < b


def truth(x):
    return bool(x)


def contains(item, container):
    t = _real_type(container)
    if isinstance(container, str):
        if isinstance(item, str) and (has_tok(item) or has_tok(container)):
            return s_find(container, item) >= 0
        return item in container
    if isinstance(container, (ADict, ASet)):
        return item in container
    if isinstance(container, (dict, set, frozenset, dict_keys_t)):
        items = list(container)
        if sym_inside(item) or any(sym_inside(i) for i in items):
            return _any_eq(item, items)
        return item in container
    if t in (list, tuple, collections.deque):
        if sym_inside(item) or sym_inside(list(container)):
            return _any_eq(item, container)
        return item in container
    if isinstance(container, range):
        if _real_type(item) is SymInt:
            if container.step == 1:
                return land(item >= container.start, item < container.stop)
            return any(truth(item == v) for v in container)
        return item in container
    if isinstance(item, str) and has_tok(item) and not isinstance(
        container, type
    ):
        try:
            return _any_eq(item, list(container))
        except TypeError:
            pass
    return item in container


dict_keys_t = type({}.keys())


def _any_eq(item, items):
    return lor(*[True if item is y else eq(item, y) for y in items])


def cmp(op, a, b):
    if op == "==":
        return eq(a, b)
    if op == "!=":
        return lnot(eq(a, b))
    if op == "in":
        return contains(a, b)
    if op == "not in":
        return lnot(contains(a, b))
    if op == "<":
        return _ord(operator.lt, a, b, lambda: lt(a, b))
    if op == ">":
        return _ord(operator.gt, a, b, lambda: lt(b, a))
    if op == "<=":
        return _ord(operator.le, a, b, lambda: lnot(lt(b, a)))
    if op == ">=":
        return _ord(operator.ge, a, b, lambda: lnot(lt(a, b)))
    if op in ("is", "is not"):
        if _real_type(a) is SymBool and b in (True, False):
            a = bool(a)
        elif _real_type(b) is SymBool and a in (True, False):
            b = bool(b)
        return (a is b) if op == "is" else (a is not b)
    raise AssertionError(op)


def _ord(native, a, b, symbolic):
    if isinstance(a, (ASet, frozenset)) or isinstance(b, ASet):
        return native(a, b)
    if (
        isinstance(a, (str, list, tuple))
        and isinstance(b, (str, list, tuple))
        and (sym_inside(a) or sym_inside(b))
    ):
        return symbolic()
    return native(a, b)


# --------------------------------------------------------------------------
# string methods on strings with tokens
# --------------------------------------------------------------------------


def _plain(s):
    """No numbers of unknown length inside."""
    return concretise_nums(s)


_INT_CHARS = frozenset("0123456789-")
_FLOAT_CHARS = frozenset("0123456789-+.einfa")
_NUM_CHARS = frozenset(map(chr, range(32, 127)))


def num_chars(e):
    """The characters the text of a number may have."""
    if not e.spec:
        return _INT_CHARS if e.kind == "i" else _FLOAT_CHARS
    m = re.fullmatch(r"(#?)(0?[1-9]\d*)?(\.\d+)?([dxXobreg]?)", e.spec)
    if not m:
        return _NUM_CHARS
    out = set(_FLOAT_CHARS if e.kind == "f" else _INT_CHARS)
    if m.group(2) and m.group(2)[0] != "0":
        out.add(" ")
    out.update({"x": "abcdefx", "X": "ABCDEFX", "o": "o", "b": "b"}.get(m.group(4), ""))
    return frozenset(out)


def _apart(s, chars):
    """No number of s contains one of the characters."""
    chars = frozenset(chars)
    return not any(
        num_chars(e) & chars for e in map(tok, s) if type(e) is Num
    )


def _opaque(s, sub):
    """s, with the numbers written out that could overlap a match of sub."""
    if not has_num(s):
        return s
    doms = set()
    for c in sub:
        e = tok(c)
        if e is None:
            doms.add(c)
        elif type(e) is Num:
            return concretise_nums(s)
        else:
            doms |= e.dom
    return s if _apart(s, doms) else concretise_nums(s)


def s_match_at(s, i, sub):
    if i + len(sub) > len(s):
        return False
    seg = s[i : i + len(sub)]
    if has_num(seg) and seg != sub:
        # numbers that may overlap were written out before
        if any(
            type(tok(c)) is Num and c != d for c, d in zip(seg, sub)
        ):
            return False
    return text_eq(seg, sub)


def s_find(s, sub, start=0, end=None):
    if not sub:
        return 0 if start == 0 else start
    if not has_tok(s) and not has_tok(sub):
        return s.find(sub, start, len(s) if end is None else end)
    s, sub = _opaque(s, sub), _plain(sub)
    end = len(s) if end is None else min(end, len(s))
    if start < 0:
        start = max(0, len(s) + start)
    for i in range(start, end - len(sub) + 1):
        if truth(s_match_at(s, i, sub)):
            return i
    return -1


def s_rfind(s, sub):
    s, sub = _opaque(s, sub), _plain(sub)
    for i in range(len(s) - len(sub), -1, -1):
        if truth(s_match_at(s, i, sub)):
            return i
    return -1


def s_replace(s, old, new, count=-1):
    count = int(count)
    if not old:
        return concretise_str(s).replace(old, new, count)
    if len(old) == 1 and not has_tok(old):
        if count < 0 and len(new) == 1 and not has_tok(new):
            return "".join(
                ch_map(c, lambda d: new if d == old else d, ("r", old, new))
                if type(tok(c)) is not Num
                else (
                    c
                    if _apart(c, old)
                    else concretise_str(c).replace(old, new)
                )
                for c in s
            )
    s, old = _opaque(s, old), _plain(old)
    out, i, n = [], 0, 0
    while i < len(s):
        if (count < 0 or n < count) and truth(s_match_at(s, i, old)):
            out.append(new)
            i += len(old)
            n += 1
        else:
            out.append(s[i])
            i += 1
    return "".join(out)


def s_split(s, sep=None, maxsplit=-1):
    if sep is None:
        doms_ok = all(
            not any(d.isspace() for d in ch_dom(c))
            for c in s
            if tok(c) is not None and type(tok(c)) is not Num
        )
        if doms_ok:
            return str.split(s, None, maxsplit)
        return concretise_str(s).split(sep, maxsplit)
    out = []
    rest = s
    while maxsplit < 0 or len(out) < maxsplit:
        i = s_find(rest, sep)
        if i < 0:
            break
        out.append(rest[:i])
        rest = rest[i + len(sep) :]
    out.append(rest)
    return out


def s_strip(s, chars=None, left=True, right=True):
    def matches(c):
        e = tok(c)
        if type(e) is Num:
            return False
        if chars is None:
            return lor(
                *[core.ch_eq(c, d) for d in ch_dom(c) if d.isspace()]
            )
        return lor(*[core.ch_eq(c, d) for d in chars])

    if has_num(s):
        if not _apart(s, " " if chars is None else chars) or has_tok(chars or ""):
            s = _plain(s)
    i, j = 0, len(s)
    while left and i < j and truth(matches(s[i])):
        i += 1
    while right and j > i and truth(matches(s[j - 1])):
        j -= 1
    return s[i:j]


def s_translate(s, table):
    out = []
    for c in s:
        e = tok(c)
        if e is None:
            out.append(c.translate(table))
        elif type(e) is Num:
            if _apart(c, [chr(k) for k in table if isinstance(k, int)]):
                out.append(c)
            else:
                out.append(concretise_str(c).translate(table))
        else:
            if all(len(d.translate(table)) == 1 for d in e.dom):
                out.append(
                    ch_map(
                        c,
                        lambda d: d.translate(table),
                        ("t", tuple(sorted((k, table[k]) for k in table if isinstance(k, int)), )),
                    )
                )
            else:
                out.append(concretise_str(c).translate(table))
    return "".join(out)


def _pred(name):
    def f(s):
        conds = []
        if not s:
            return getattr("", name)()
        for c in s:
            e = tok(c)
            if e is None:
                if not getattr(c, name)():
                    # islower/isupper ignore uncased characters
                    return getattr(concretise_str(s), name)()
            elif type(e) is Num:
                return getattr(concretise_str(s), name)()
            else:
                conds.append(
                    lor(
                        *[
                            core.ch_eq(c, d)
                            for d in e.dom
                            if getattr(d, name)()
                        ]
                    )
                )
        return land(*conds)

    return f


def s_startswith(s, prefix, start=0, end=None):
    if isinstance(prefix, tuple):
        return lor(*[s_startswith(s, p, start, end) for p in prefix])
    s = s[start:end] if (start or end is not None) else s
    return _prefix(s, prefix)


def _prefix(s, prefix):
    if has_num(s[: len(prefix)]):
        k = 0
        while k < len(s) and type(tok(s[k])) is not Num:
            k += 1
        if k < len(prefix):
            if core.text_eq(s[:k], prefix[:k]) is False:
                return False
        s = _opaque(s, prefix)
    return s_match_at(s, 0, prefix)


def s_endswith(s, suffix, start=0, end=None):
    if isinstance(suffix, tuple):
        return lor(*[s_endswith(s, p, start, end) for p in suffix])
    if start or end is not None:
        s = _plain(s)[start:end]
    if not suffix:
        return True
    if has_num(s[-len(suffix) :]):
        s = _opaque(s, suffix)
    if len(suffix) > len(s):
        return False
    return s_match_at(s, len(s) - len(suffix), suffix)


def s_partition(s, sep):
    i = s_find(s, sep)
    if i < 0:
        return (s, "", "")
    return (s[:i], sep, s[i + len(sep) :])


def s_count(s, sub):
    s, sub = _opaque(s, sub), _plain(sub)
    n, i = 0, 0
    while i <= len(s) - len(sub):
        if truth(s_match_at(s, i, sub)):
            n += 1
            i += max(1, len(sub))
        else:
            i += 1
    return n


def s_capitalize(s):
    s = _plain(s)
    return s_upper(s[:1]) + s_lower(s[1:])


def s_upper(s):
    return "".join(
        ch_map(c, str.upper, "up")
        if type(tok(c)) is not Num
        else _num_case(c, str.upper)
        for c in s
    )


def s_lower(s):
    return "".join(
        ch_map(c, str.lower, "lo")
        if type(tok(c)) is not Num
        else _num_case(c, str.lower)
        for c in s
    )


def _num_case(c, f):
    e = tok(c)
    if e.kind == "i" and e.spec in ("", "d"):
        return c
    if e.kind == "i" and e.spec[-1:] in "xX":
        return core.int_token(e.v, f(e.spec))
    return f(concretise_str(c))


def s_title(s):
    return concretise_str(s).title()


def s_removeprefix(s, p):
    return s[len(p) :] if truth(_prefix(s, p)) else s


def s_removesuffix(s, p):
    return s[: len(s) - len(p)] if p and truth(s_endswith(s, p)) else s


def s_join(s, items):
    items = list(items)
    return str.join(s, items)


def s_format(s, *a, **k):
    return str.format(s, *a, **k)


def s_index(s, sub, *a):
    i = s_find(s, sub, *a)
    if i < 0:
        raise ValueError("substring not found")
    return i


def s_splitlines(s, keepends=False):
    return str.splitlines(s, keepends)


def _just(name):
    def f(s, *a):
        return getattr(str, name)(s, *a)

    return f


STR_METHODS = {
    "find": s_find,
    "rfind": s_rfind,
    "index": s_index,
    "replace": s_replace,
    "split": s_split,
    "splitlines": s_splitlines,
    "strip": lambda s, c=None: s_strip(s, c),
    "lstrip": lambda s, c=None: s_strip(s, c, right=False),
    "rstrip": lambda s, c=None: s_strip(s, c, left=False),
    "translate": s_translate,
    "startswith": s_startswith,
    "endswith": s_endswith,
    "partition": s_partition,
    "count": s_count,
    "capitalize": s_capitalize,
    "upper": s_upper,
    "lower": s_lower,
    "casefold": s_lower,
    "removeprefix": s_removeprefix,
    "removesuffix": s_removesuffix,
    "join": s_join,
    "format": s_format,
    "ljust": _just("ljust"),
    "rjust": _just("rjust"),
    "center": _just("center"),
    "isdigit": _pred("isdigit"),
    "isalpha": _pred("isalpha"),
    "isalnum": _pred("isalnum"),
    "isspace": _pred("isspace"),
    "isupper": lambda s: concretise_str(s).isupper(),
    "islower": lambda s: concretise_str(s).islower(),
    "__str__": lambda s: s,
    "__len__": lambda s: len(_plain(s)),
    "__eq__": text_eq,
    "__contains__": lambda s, o: contains(o, s),
}


def str_method(s, name, args, kwargs):
    f = STR_METHODS.get(name)
    if f is None:
        return getattr(concretise_str(s), name)(
            *[concretise_any(a) for a in args], **kwargs
        )
    return f(s, *args, **kwargs)


# --------------------------------------------------------------------------
# containers
# --------------------------------------------------------------------------

_MISSING = object()


def _canon(store_iter, key, concrete_has):
    """The stored key equal to `key`, or _MISSING."""
    if not sym_inside(key):
        if concrete_has(key):
            return key
        for k in store_iter():
            if sym_inside(k) and truth(eq(k, key)):
                return k
        return _MISSING
    for k in list(store_iter()):
        if k is key or truth(eq(k, key)):
            return k
    return _MISSING


def _by_identity(f, *args):
    """Stores or finds a key that is already known to be the canonical one,
    without a case split over its symbolic parts."""
    old, core.IDENTITY_HASH = core.IDENTITY_HASH, True
    try:
        return f(*args)
    finally:
        core.IDENTITY_HASH = old


CACHES = []


def r_lru_cache(maxsize=128, typed=False):
    """functools.lru_cache and functools.cache (without eviction)."""
    import functools

    if callable(maxsize) or isinstance(maxsize, (classmethod, staticmethod)):
        return r_lru_cache(None)(maxsize)

    def decorate(fn):
        store = ADict()
        CACHES.append(store)

        @functools.wraps(fn)
        def wrapper(*a, **k):
            key = (a, tuple(sorted(k.items()))) if k else a
            if not sym_inside(key):
                hash(key)
            v = store.get(key, _MISSING)
            if v is _MISSING:
                v = call(fn, a, k)
                store[key] = v
            return v

        wrapper.cache_clear = lambda: _clear(store)
        wrapper.cache_info = lambda: (0, 0, None, len(store))
        return wrapper

    return decorate


def _clear(store):
    dict.clear(store)
    store._has_sym = False


def deco(d):
    """A decorator of the program, or its replacement."""
    import functools

    if d is functools.lru_cache or d is getattr(functools, "cache", None):
        return r_lru_cache(None)
    return d


class ADict(dict):
    """A dict whose keys may contain symbolic text."""

    __slots__ = ("_has_sym",)

    def __init__(self, *a, **k):
        dict.__init__(self)
        self._has_sym = False
        self.update(*a, **k)

    @property
    def __class__(self):
        return dict

    def _c(self, key):
        if not self._has_sym and not sym_inside(key):
            return key if dict.__contains__(self, key) else _MISSING
        return _canon(
            lambda: dict.__iter__(self),
            key,
            lambda k: dict.__contains__(self, k),
        )

    def __getitem__(self, key):
        c = self._c(key)
        if c is _MISSING:
            return self.__missing__(key)
        return _by_identity(dict.__getitem__, self, c)

    def __missing__(self, key):
        raise KeyError(key)

    def __setitem__(self, key, value):
        c = self._c(key)
        if c is _MISSING:
            if sym_inside(key):
                self._has_sym = True
            c = key
        _by_identity(dict.__setitem__, self, c, value)

    def __delitem__(self, key):
        c = self._c(key)
        if c is _MISSING:
            raise KeyError(key)
        _by_identity(dict.__delitem__, self, c)

    def __contains__(self, key):
        return self._c(key) is not _MISSING

    def get(self, key, default=None):
        c = self._c(key)
        if c is _MISSING:
            return default
        return _by_identity(dict.__getitem__, self, c)

    def setdefault(self, key, default=None):
        c = self._c(key)
        if c is _MISSING:
            self[key] = default
            return default
        return _by_identity(dict.__getitem__, self, c)

    def pop(self, key, *default):
        c = self._c(key)
        if c is _MISSING:
            if default:
                return default[0]
            raise KeyError(key)
        return _by_identity(dict.pop, self, c)

    def update(self, *a, **k):
        for src in a:
            if isinstance(src, dict):
                for key, v in dict.items(src):
                    self[key] = v
            elif hasattr(src, "keys"):
                for key in src.keys():
                    self[key] = src[key]
            else:
                for key, v in src:
                    self[key] = v
        for key, v in k.items():
            self[key] = v

    def copy(self):
        return _real_type(self)(self)

    def __or__(self, o):
        r = self.copy()
        r.update(o)
        return r

    def __ror__(self, o):
        r = ADict(o)
        r.update(self)
        return r

    def __ior__(self, o):
        self.update(o)
        return self

    def keys(self):
        return AKeys(self)

    def __eq__(self, o):
        return eq_dict(self, o)

    def __ne__(self, o):
        return lnot(eq_dict(self, o))

    __hash__ = None

    def __reduce__(self):
        return (dict, (dict(self),))


def eq_dict(a, b):
    if not isinstance(b, dict):
        return False
    if len(a) != len(b):
        return False
    return all(k in a and truth(eq(a[k], v)) for k, v in dict.items(b))


class AKeys:
    """keys() view: iterates in order, set operations are symbolic."""

    def __init__(self, d):
        self._d = d

    def __iter__(self):
        return dict.__iter__(self._d)

    def __len__(self):
        return len(self._d)

    def __contains__(self, k):
        return k in self._d

    def __reversed__(self):
        return reversed(list(dict.__iter__(self._d)))

    def _s(self):
        return ASet(list(self))

    def __sub__(self, o):
        return self._s() - ASet(o)

    def __rsub__(self, o):
        return ASet(o) - self._s()

    def __and__(self, o):
        return self._s() & ASet(o)

    __rand__ = __and__

    def __or__(self, o):
        return self._s() | ASet(o)

    def __xor__(self, o):
        return self._s() ^ ASet(o)

    def __eq__(self, o):
        return self._s() == ASet(o)

    def __le__(self, o):
        return self._s() <= ASet(o)

    def __ge__(self, o):
        return self._s() >= ASet(o)

    def isdisjoint(self, o):
        return not (self & o)


class ADefaultDict(ADict):
    __slots__ = ("default_factory",)

    def __init__(self, factory=None, *a, **k):
        self.default_factory = factory
        ADict.__init__(self, *a, **k)

    def __missing__(self, key):
        if self.default_factory is None:
            raise KeyError(key)
        v = call(self.default_factory, (), {})
        self[key] = v
        return v

    def copy(self):
        return ADefaultDict(self.default_factory, self)


class ACounter(ADict):
    __slots__ = ()

    def __init__(self, it=(), **k):
        ADict.__init__(self)
        self.update(it, **k)

    def __missing__(self, key):
        return 0

    def update(self, it=(), **k):
        if isinstance(it, dict):
            for key, v in dict.items(it):
                self[key] = self[key] + v
        else:
            for x in it:
                self[x] = self[x] + 1
        for key, v in k.items():
            self[key] = self[key] + v

    def most_common(self, n=None):
        items = sorted(dict.items(self), key=lambda kv: -kv[1])
        return items if n is None else items[:n]

    def elements(self):
        for k, v in dict.items(self):
            for _ in range(v):
                yield k

    def total(self):
        return sum(dict.values(self))

    def copy(self):
        return ACounter(self)


class ASet(set):
    """A set whose elements may contain symbolic text, insertion ordered."""

    __slots__ = ("_l",)

    def __new__(cls, *a):
        return set.__new__(cls)

    def __init__(self, it=()):
        set.__init__(self)
        self._l = []
        for x in it:
            self.add(x)

    @property
    def __class__(self):
        return set

    def _c(self, x):
        if not sym_inside(x):
            try:
                if set.__contains__(self, x):
                    return x
            except TypeError:
                raise
            for k in self._l:
                if sym_inside(k) and truth(eq(k, x)):
                    return k
            return _MISSING
        for k in self._l:
            if k is x or truth(eq(k, x)):
                return k
        return _MISSING

    def add(self, x):
        if self._c(x) is _MISSING:
            _by_identity(set.add, self, x)
            self._l.append(x)

    def discard(self, x):
        c = self._c(x)
        if c is not _MISSING:
            _by_identity(set.discard, self, c)
            self._l = [y for y in self._l if y is not c]

    def remove(self, x):
        if self._c(x) is _MISSING:
            raise KeyError(x)
        self.discard(x)

    def pop(self):
        x = self._order()[0]
        self.discard(x)
        return x

    def clear(self):
        set.clear(self)
        self._l = []

    def _order(self):
        if ST.set_order is not None and len(self._l) > 1:
            return ST.set_order(self._l)
        return list(self._l)

    def __iter__(self):
        return iter(self._order())

    def __len__(self):
        return len(self._l)

    def __bool__(self):
        return bool(self._l)

    def __contains__(self, x):
        return self._c(x) is not _MISSING

    def copy(self):
        return ASet(self._l)

    def update(self, *its):
        for it in its:
            for x in it:
                self.add(x)

    def union(self, *its):
        r = ASet(self._l)
        r.update(*its)
        return r

    def difference(self, *its):
        its = [ASet(i) for i in its]
        return ASet([x for x in self._l if not any(x in i for i in its)])

    def difference_update(self, *its):
        r = self.difference(*its)
        self.clear()
        self.update(r._l)

    def intersection(self, *its):
        its = [ASet(i) for i in its]
        return ASet([x for x in self._l if all(x in i for i in its)])

    def symmetric_difference(self, o):
        o = ASet(o)
        return (self - o) | (o - self)

    def __sub__(self, o):
        return self.difference(o)

    def __rsub__(self, o):
        return ASet(o).difference(self)

    def __isub__(self, o):
        self.difference_update(o)
        return self

    def __or__(self, o):
        return self.union(o)

    __ror__ = __or__

    def __ior__(self, o):
        self.update(o)
        return self

    def __and__(self, o):
        return self.intersection(o)

    __rand__ = __and__

    def __xor__(self, o):
        return self.symmetric_difference(o)

    __rxor__ = __xor__

    def issubset(self, o):
        o = ASet(o)
        return all(x in o for x in self._l)

    def issuperset(self, o):
        return all(x in self for x in o)

    def isdisjoint(self, o):
        return not self.intersection(o)

    def __le__(self, o):
        return self.issubset(o)

    def __ge__(self, o):
        return self.issuperset(o)

    def __lt__(self, o):
        return self.issubset(o) and len(self) < len(ASet(o))

    def __gt__(self, o):
        return self.issuperset(o) and len(self) > len(ASet(o))

    def __eq__(self, o):
        if not isinstance(o, (set, frozenset)):
            return False
        o = ASet(o)
        return len(o) == len(self) and self.issubset(o)

    def __ne__(self, o):
        return not self.__eq__(o)

    def __hash__(self):
        return hash(frozenset(self._l))

    def __repr__(self):
        return "{" + ", ".join(repr(x) for x in self._l) + "}"

    __str__ = __repr__

    def __format__(self, spec):
        return format(repr(self), spec)


def mkdict(pairs):
    d = ADict()
    for k, v in pairs:
        if k is _MISSING:
            d.update(v)
        else:
            d[k] = v
    return d


STAR = _MISSING


def mkset(items):
    return ASet(items)


# --------------------------------------------------------------------------
# calls
# --------------------------------------------------------------------------


def _symlist(args):
    return any(sym_inside(a) for a in args)


def r_sorted(it, key=None, reverse=False):
    items = list(it)
    keys = [call(key, (x,), {}) if key else x for x in items]
    if not any(sym_inside(k) for k in keys):
        order = sorted(range(len(items)), key=lambda i: keys[i], reverse=reverse)
        return [items[i] for i in order]
    out = []
    for i in range(len(items)):
        j = len(out)
        while j > 0 and truth(
            lt(keys[i], keys[out[j - 1]])
            if not reverse
            else lt(keys[out[j - 1]], keys[i])
        ):
            j -= 1
        out.insert(j, i)
    return [items[i] for i in out]


def _minmax(sign):
    def f(*args, key=None, default=_MISSING):
        items = list(args[0]) if len(args) == 1 else list(args)
        if not items:
            if default is _MISSING:
                raise ValueError("arg is an empty sequence")
            return default
        ks = [call(key, (x,), {}) if key else x for x in items]
        best, bk = items[0], ks[0]
        if all(
            _real_type(x) in (SymInt, int, bool, SymBool) for x in ks
        ) and key is None and any(_real_type(x) is SymInt for x in ks):
            r = SymInt.lift(best)
            for x in items[1:]:
                y = SymInt.lift(x)
                c = (y > r) if sign > 0 else (y < r)
                if c is True:
                    r = y
                elif c is not False:
                    lo = max(r.lo, y.lo) if sign > 0 else min(r.lo, y.lo)
                    hi = max(r.hi, y.hi) if sign > 0 else min(r.hi, y.hi)
                    w = max(r.t.size(), y.t.size())
                    t = core.z3.If(c.t, core._ext(y.t, w), core._ext(r.t, w))
                    r = core.mkint(t, lo, hi)
                    r = SymInt.lift(r)
            return r if r.lo != r.hi else r.lo
        for x, k in zip(items[1:], ks[1:]):
            if truth(lt(bk, k) if sign > 0 else lt(k, bk)):
                best, bk = x, k
        return best

    return f


r_max = _minmax(1)
r_min = _minmax(-1)


def r_len(x):
    if isinstance(x, str) and has_num(x):
        return len(concretise_str(x))
    return len(x)


def r_type(*a):
    if len(a) == 1:
        t = _real_type(a[0])
        return {
            SymInt: int,
            SymBool: bool,
            SymFloat: float,
            SymBytes: bytes,
            ADict: dict,
            ASet: set,
        }.get(t, t)
    return _real_type(*a)


def r_int(*a, **k):
    if len(a) == 1 and not k:
        x = a[0]
        t = _real_type(x)
        if t is SymInt:
            return x
        if t is SymBool:
            return x.int()
        if isinstance(x, str) and has_tok(x):
            e = tok(x) if len(x) == 1 else None
            if type(e) is Num and e.kind == "i" and e.spec in ("", "d"):
                return e.v
            return int(concretise_str(x))
    if a and isinstance(a[0], str) and has_tok(a[0]):
        return int(concretise_str(a[0]), *a[1:], **k)
    return int(*a, **k)


def r_float(*a):
    if len(a) == 1:
        x = a[0]
        if _real_type(x) is SymFloat:
            return x
        if _real_type(x) is SymInt:
            return SymFloat.of_int(x)
        if isinstance(x, str) and has_tok(x):
            e = tok(x) if len(x) == 1 else None
            if type(e) is Num and e.spec == "":
                return e.v if e.kind == "f" else SymFloat.of_int(e.v)
            return float(concretise_str(x))
    return float(*a)


def r_bool(x=False):
    if _real_type(x) in (SymBool,):
        return x
    if _real_type(x) is SymInt:
        return x != 0
    return bool(x)


def r_str(*a, **k):
    if len(a) == 1 and not k and isinstance(a[0], str) and has_tok(a[0]):
        return str.__str__(a[0])
    return str(*a, **k)


def r_repr(x):
    if isinstance(x, str) and has_tok(x):
        return "'" + x + "'"
    if _real_type(x) in (list, tuple) and sym_inside(x):
        inner = ", ".join(r_repr(y) for y in x)
        if isinstance(x, list):
            return "[" + inner + "]"
        return "(" + inner + ("," if len(x) == 1 else "") + ")"
    return repr(x)


def r_hex(x):
    if _real_type(x) is SymInt:
        if truth(x < 0):
            return "-0x" + core.int_token(-x, "x")
        return "0x" + core.int_token(x, "x")
    return hex(x)


def r_ord(c):
    if isinstance(c, str) and has_tok(c) and len(c) == 1:
        e = tok(c)
        if type(e) is not Num:
            return core.mkint(core.z3.ZeroExt(1, e.t), 0, 255)
        c = concretise_str(c)
    return ord(c)


def r_pack(fmt, *vals):
    if isinstance(fmt, str) and has_tok(fmt):
        fmt = concretise_str(fmt)
    if any(is_sym(v) for v in vals):
        return core.sym_struct_pack(fmt, *vals)
    return struct.pack(fmt, *vals)


def r_bytes(*a):
    if len(a) == 1:
        x = a[0]
        if _real_type(x) is SymBytes:
            return x
        if _real_type(x) in (list, tuple) or isinstance(x, types.GeneratorType):
            items = list(x)
            if any(_real_type(i) is SymInt for i in items):
                out = []
                for i in items:
                    if _real_type(i) is SymInt:
                        if not truth(land(i >= 0, i <= 255)):
                            raise ValueError("bytes must be in range(0, 256)")
                        out.extend(core.int_bytes(i, 1, True).b)
                    else:
                        out.append(i)
                return SymBytes(out)
            return bytes(items)
    return bytes(*a)


def r_bytearray(*a):
    if a and _real_type(a[0]) is SymBytes:
        return SymBytes(a[0].b)
    if not a:
        return SymByteArray([])
    return bytearray(*a)


class SymByteArray(SymBytes):
    __slots__ = ()

    def _l(self, o):
        return o.b if isinstance(o, SymBytes) or hasattr(o, "b") else list(o)

    def extend(self, o):
        if _real_type(o) in (SymBytes, SymByteArray):
            self.b.extend(o.b)
        else:
            self.b.extend(r_bytes(list(o)).b if any(is_sym(x) for x in o) else list(o))

    def append(self, x):
        self.b.extend(r_bytes([x]).b if is_sym(x) else [x])

    def __iadd__(self, o):
        self.extend(o)
        return self

    def reverse(self):
        self.b.reverse()


def r_set(it=()):
    return ASet(it)


def r_dict(*a, **k):
    return ADict(*a, **k)


def r_sum(it, start=0):
    for x in it:
        start = start + x
    return start


def r_range(*a):
    return range(*[core.split_int(x) for x in a])


def r_getattr(o, name, *d):
    if isinstance(name, str) and has_tok(name):
        name = concretise_str(name)
    return getattr(o, name, *d)


def r_format(x, spec=""):
    return format(x, spec)


def r_isinstance(x, t):
    return isinstance(x, t)


def r_log(x, *base):
    return math.log(concretise_any(x), *[concretise_any(b) for b in base])


def r_hash(x):
    return hash(concretise_any(x))


def r_any(it):
    for x in it:
        if x:
            return True
    return False


def r_list_index(lst, x, *a):
    start = a[0] if a else 0
    for i in range(start, len(lst)):
        if lst[i] is x or truth(eq(lst[i], x)):
            return i
    raise ValueError("x not in list")


def r_list_remove(lst, x):
    del lst[r_list_index(lst, x)]


def r_list_count(lst, x):
    return sum(1 for y in lst if y is x or truth(eq(y, x)))


def r_fromkeys(it, v=None):
    return ADict([(k, v) for k in it])


FUNCS = {}


def _reg(f, g):
    FUNCS[id(f)] = g


for _f, _g in [
    (set, r_set),
    (frozenset, r_set),
    (dict, r_dict),
    (collections.Counter, ACounter),
    (collections.defaultdict, ADefaultDict),
    (collections.OrderedDict, ADict),
    (sorted, r_sorted),
    (max, r_max),
    (min, r_min),
    (len, r_len),
    (type, r_type),
    (int, r_int),
    (float, r_float),
    (bool, r_bool),
    (str, r_str),
    (repr, r_repr),
    (hex, r_hex),
    (ord, r_ord),
    (struct.pack, r_pack),
    (bytes, r_bytes),
    (bytearray, r_bytearray),
    (sum, r_sum),
    (range, r_range),
    (getattr, r_getattr),
    (math.log, r_log),
    (hash, r_hash),
    (any, r_any),
    (functools.lru_cache, r_lru_cache),
    (functools.cache, r_lru_cache),
    (operator.eq, eq),
    (operator.ne, lambda a, b: lnot(eq(a, b))),
    (operator.lt, lt),
    (operator.contains, lambda a, b: contains(b, a)),
]:
    _reg(_f, _g)

# results with symbolic keys are fine, arguments pass through opaquely
SAFE_MODULES = (
    "asn1_parser",
    "cgen",
    "textx",
    "arpeggio",
    "argparse",
    "logging",
    "posixpath",
    "os",
    "pathlib",
    "genericpath",
    "io",
    "symapg",
    "contextlib",
    "functools",
    "itertools",
    "dataclasses",
    "copy",
    "typing",
    "abc",
    "enum",
    "builtins",
    "collections",
    "traceback",
    "warnings",
    "operator",
    "_operator",
    "sys",
    "codecs",
    "shutil",
    "tempfile",
    "_io",
    "types",
    "time",
    "gc",
)
UNSAFE_BUILTINS = {
    "eval", "exec", "compile", "setattr", "hasattr", "delattr",
}
method_descriptor = type(str.lower)


def call(f, args, kwargs):
    g = FUNCS.get(id(f))
    if g is not None:
        return g(*args, **kwargs)
    t = _real_type(f)
    if t is types.FunctionType or t is types.MethodType:
        mod = getattr(f, "__module__", "") or ""
        if mod.split(".")[0] in SAFE_MODULES:
            return f(*args, **kwargs)
    elif t is method_descriptor and f.__objclass__ is str:
        if args and isinstance(args[0], str) and (
            has_tok(args[0]) or _symlist(args)
        ):
            return str_method(args[0], f.__name__, args[1:], kwargs)
        return f(*args, **kwargs)
    elif t is method_descriptor and f.__objclass__ in (list, dict, set):
        return callm(args[0], f.__name__, args[1:], kwargs)
    elif t is types.BuiltinMethodType or t is types.MethodWrapperType:
        self = getattr(f, "__self__", None)
        if self is not None and not isinstance(self, types.ModuleType):
            if self is dict and f.__name__ == "fromkeys":
                return r_fromkeys(*args)
            if not isinstance(self, type):
                return callm(self, f.__name__, args, kwargs)
    # higher-order builtins: pass replacement functions in
    if f in _HIGHER:
        args = tuple(
            _wrap(a) if i == 0 or callable(a) else a
            for i, a in enumerate(args)
        )
        kwargs = {
            k: _wrap(v) if callable(v) else v for k, v in kwargs.items()
        }
        return f(*args, **kwargs)
    if isinstance(f, type):
        if issubclass(f, enum.Enum) and args and sym_inside(args[0]):
            for m in f:
                if truth(eq(m.value, args[0])):
                    return m
            raise ValueError("not a valid %s" % f.__name__)
        mod = (getattr(f, "__module__", "") or "").split(".")[0]
        if mod in SAFE_MODULES or issubclass(f, BaseException):
            return f(*args, **kwargs)
    if _symlist(args) or _symlist(kwargs.values()):
        mod = (getattr(f, "__module__", None) or "").split(".")[0]
        name = getattr(f, "__name__", "")
        if mod in SAFE_MODULES and name not in UNSAFE_BUILTINS:
            return f(*args, **kwargs)
        args = [_deep_concrete(a) for a in args]
        kwargs = {k: _deep_concrete(v) for k, v in kwargs.items()}
    return f(*args, **kwargs)


def _deep_concrete(a):
    if _real_type(a) in (list, tuple):
        return _real_type(a)(_deep_concrete(x) for x in a)
    if is_sym(a) or isinstance(a, str):
        return concretise_any(a)
    if isinstance(a, dict):
        return {_deep_concrete(k): _deep_concrete(v) for k, v in a.items()}
    return a


def _hset():
    s = [map, filter]
    import functools
    import itertools

    s += [
        functools.reduce,
        functools.partial,
        itertools.groupby,
        itertools.takewhile,
        itertools.dropwhile,
        itertools.starmap,
        itertools.filterfalse,
        functools.cmp_to_key,
    ]
    return s


class _IdSet:
    def __init__(self, items):
        self.ids = {id(x) for x in items}

    def __contains__(self, x):
        return id(x) in self.ids


_HIGHER = _IdSet(_hset())


def _wrap(f):
    if f is None or not callable(f):
        return f
    if _real_type(f) is types.FunctionType:
        return f
    return lambda *a, **k: call(f, a, k)


LIST_METHODS = {
    "index": r_list_index,
    "remove": r_list_remove,
    "count": r_list_count,
}


def re_call(name, args, kwargs):
    """A function of the module re with symbolic text."""
    from . import symre

    pat, flags = args[0], kwargs.get("flags", 0)
    rest = list(args[1:])
    if isinstance(pat, re.Pattern):
        flags |= pat.flags & ~re.U
        pat = pat.pattern
    try:
        if not has_tok(pat):
            if name == "sub" and len(rest) == 2 and isinstance(rest[0], str):
                return symre.replace_class(pat, rest[0], rest[1], flags)
            if name == "fullmatch" and len(rest) == 1:
                if not core.branch(symre.fullmatch(pat, rest[0], flags)):
                    return None
                return SymMatch(rest[0])
            if name == "match" and len(rest) == 1 and pat.endswith(("$", "\\Z")):
                if not core.branch(symre.fullmatch(pat, rest[0], flags)):
                    return None
                return SymMatch(rest[0])
    except symre.Unsupported:
        pass
    args = [_deep_concrete(a) for a in args]
    kwargs = {k: _deep_concrete(v) for k, v in kwargs.items()}
    return getattr(re, name)(*args, **kwargs)


class SymMatch:
    def __init__(self, text):
        self.text = text

    def group(self, *a):
        if a not in ((), (0,)):
            raise Inconclusive("group of a symbolic match")
        return self.text

    def __getitem__(self, i):
        return self.group(i)

    def span(self):
        return (0, len(self.text))


def callm(obj, name, args, kwargs):
    """obj.name(*args, **kwargs)"""
    t = _real_type(obj)
    if isinstance(obj, str) and t is not type:
        if (
            has_tok(obj)
            or (args and _symlist(args))
            or (kwargs and _symlist(kwargs.values()))
        ) and not isinstance(obj, enum.Enum):
            return str_method(obj, name, args, kwargs)
        return getattr(obj, name)(*args, **kwargs)
    if t is list:
        if name in LIST_METHODS:
            return LIST_METHODS[name](obj, *args, **kwargs)
        if name == "sort":
            obj[:] = r_sorted(obj, **kwargs)
            return None
        return getattr(obj, name)(*args, **kwargs)
    if t is tuple and name in ("index", "count"):
        return LIST_METHODS[name](list(obj), *args)
    if t is bytes and name == "join":
        items = list(args[0])
        if any(is_sym(x) for x in items):
            out = []
            for i, x in enumerate(items):
                if i:
                    out.extend(obj)
                out.extend(x.b if _real_type(x) in (SymBytes, SymByteArray) else list(x))
            return SymBytes(out)
    if t is types.ModuleType and obj is re and (
        _symlist(args) or _symlist(kwargs.values())
    ):
        return re_call(name, args, kwargs)
    if t is re.Pattern and _symlist(args):
        return re_call(name, (obj,) + tuple(args), kwargs)
    if t is struct.Struct and name == "pack":
        return r_pack(obj.format, *args)
    f = getattr(obj, name)
    if t in (dict, collections.OrderedDict, collections.defaultdict) and (
        args and sym_inside(args[0])
    ):
        a = ADict(obj)
        if name in ("get", "__getitem__", "__contains__"):
            return getattr(a, name)(*args)
        if name == "setdefault":
            c = a._c(args[0])
            if c is not _MISSING:
                return obj[c]
        if name == "pop":
            c = a._c(args[0])
            if c is not _MISSING:
                return obj.pop(c)
    if t in (ADict, ASet, ADefaultDict, ACounter):
        return f(*args, **kwargs)
    return call(f, args, kwargs) if not _bound_builtin(f, obj) else f(*args, **kwargs)


def _bound_builtin(f, obj):
    return (
        _real_type(f) in (types.BuiltinMethodType, types.MethodWrapperType)
        and getattr(f, "__self__", None) is obj
        and not isinstance(obj, types.ModuleType)
        and not isinstance(obj, type)
    )


def getitem(obj, idx):
    t = _real_type(obj)
    if isinstance(obj, str) and has_num(obj):
        # keep the parts in front of the first number cheap
        if isinstance(idx, slice) and idx.step in (None, 1):
            first = next(
                i for i, c in enumerate(obj) if type(tok(c)) is Num
            )
            stop = idx.stop
            if (
                stop is not None
                and 0 <= stop <= first
                and (idx.start is None or idx.start >= 0)
            ):
                return obj[idx]
            if stop is None and (
                idx.start is None or 0 <= idx.start <= first
            ):
                return obj[idx]
        return concretise_str(obj)[idx]
    if t in (dict, collections.OrderedDict) and sym_inside(idx):
        return ADict(obj)[idx]
    if t in (list, tuple) and _real_type(idx) is SymInt:
        n = len(obj)
        if not truth(land(idx >= -n, idx < n)):
            raise IndexError("list index out of range")
        return obj[core.split_int(idx)]
    if isinstance(obj, type) and issubclass(obj, enum.Enum) and sym_inside(idx):
        for name, m in obj.__members__.items():
            if truth(eq(name, idx)):
                return m
        raise KeyError(idx)
    return obj[idx]


def prep_index(obj, idx):
    """Index for a store or delete."""
    if _real_type(obj) is list and _real_type(idx) is SymInt:
        n = len(obj)
        if not truth(land(idx >= -n, idx < n)):
            raise IndexError("list assignment index out of range")
        return core.split_int(idx)
    return idx


def binop_mod(a, b):
    if isinstance(a, str):
        vals = b if isinstance(b, tuple) else (b,)
        if any(is_sym(v) for v in vals) and "%(" not in a:
            out = []
            pos = 0
            vals = list(vals)
            for m in re.finditer(
                r"%([-+ 0#]*)(\d*)(?:\.(\d+))?([a-zA-Z%])", a
            ):
                out.append(a[pos : m.start()])
                pos = m.end()
                flags, width, prec, conv = m.groups()
                if conv == "%":
                    out.append("%")
                    continue
                v = vals.pop(0)
                if _real_type(v) is SymBool and conv in "dixX":
                    v = v.int()
                if _real_type(v) is SymInt and conv in "dixXsr" and not prec:
                    spec = conv if conv in "xX" else ""
                    if width:
                        align = "<" if "-" in flags else (
                            "" if "0" in flags and conv in "dixX" else ">"
                        )
                        zero = "0" if "0" in flags and conv in "dixX" else ""
                        spec = align + zero + width + spec
                    if "#" in flags:
                        out.append("0" + conv)
                    out.append(core.int_token(v, spec))
                elif _real_type(v) is SymFloat and conv in "sr" and not width:
                    out.append(core.float_token(v, ""))
                else:
                    out.append(m.group(0) % (concretise_any(v),))
            out.append(a[pos:])
            if vals:
                raise TypeError("not all arguments converted")
            return "".join(out)
    return a % b


def match_subject(x):
    if isinstance(x, str) and has_tok(x):
        return concretise_str(x)
    if is_sym(x):
        return concretise_any(x)
    return x
