"""Symbolic values, path state and fork-based exploration.

A path is one operating-system process.  Whenever the interpreted program has
to decide on a symbolic condition and the solver says that both outcomes are
possible, the process forks: the child goes one way, the parent the other.
Every process carries an incremental z3 solver with the path condition.
"""
import math
import os
import re
import struct as _struct
import sys
import time

import z3


class EngineSignal(BaseException):
    """Control flow of the engine; never caught by `except Exception`."""


class PathDead(EngineSignal):
    """The rest of this path is not explored (recorded as truncated)."""


class Hang(EngineSignal):
    """The program exceeded its step budget."""


class Inconclusive(EngineSignal):
    """The solver answered unknown, or a limit of the engine was hit."""


# --------------------------------------------------------------------------
# process-wide state
# --------------------------------------------------------------------------


class State:
    def __init__(self):
        self.solver = None
        self.model = None
        self.decided = {}
        self.keep = []
        self.vars = []  # (name, kind, term, info)
        self.queries = 0
        self.solver_time = 0.0
        self.branches = 0
        self.ticks = 0
        self.tick_limit = 60000
        self.truncated = []
        self.explorer = None
        self.functions = {}
        self.set_order = None  # callback choosing an iteration order
        self.concretised = {}
        self.deadline = None

    def reset(self):
        self.__init__()


ST = State()


def new_solver():
    s = z3.SolverFor("QF_BV") if False else z3.Solver()
    return s


def start(explorer, deadline):
    ST.reset()
    ST.explorer = explorer
    ST.deadline = deadline
    ST.solver = new_solver()


def _check(*assumptions):
    if ST.deadline and time.time() > ST.deadline:
        raise Inconclusive("deadline")
    t = time.time()
    r = ST.solver.check(*assumptions)
    ST.solver_time += time.time() - t
    ST.queries += 1
    if r == z3.unknown:
        raise Inconclusive("solver: unknown (%s)" % ST.solver.reason_unknown())
    return r == z3.sat


def current_model():
    if ST.model is None:
        if not _check():
            raise Inconclusive("path condition is unsatisfiable")
        ST.model = ST.solver.model()
    return ST.model


def assume(cond):
    """Adds a harness assumption; kills the path when it is infeasible."""
    c = as_z3bool(cond)
    if z3.is_true(c):
        return
    if z3.is_false(c):
        raise PathDead("assumption")
    ST.solver.add(c)
    ST.keep.append(c)
    if ST.model is not None and not z3.is_true(
        ST.model.eval(c, model_completion=True)
    ):
        ST.model = None
        if not _check():
            raise PathDead("assumption")
        ST.model = ST.solver.model()


def as_z3bool(c):
    if isinstance(c, SymBool):
        return c.t
    if c is True or c is False:
        return z3.BoolVal(c)
    if isinstance(c, z3.BoolRef):
        return c
    return z3.BoolVal(bool(c))


def feasible(cond):
    """Is pc and cond satisfiable?  Returns a model or None."""
    c = z3.simplify(as_z3bool(cond))
    if z3.is_false(c):
        return None
    m = current_model()
    if z3.is_true(m.eval(c, model_completion=True)):
        return m
    if _check(c):
        return ST.solver.model()
    return None


TRACE = os.environ.get("APG_TRACE")


def _trace(what):
    import traceback

    st = [
        "%s:%d" % (os.path.basename(f.filename), f.lineno)
        for f in traceback.extract_stack()
        if "symapg" not in f.filename or "oracle" in f.filename
    ]
    with open(TRACE, "a") as f:
        f.write("%s %s\n" % (what, " ".join(st[-4:])))


def branch(cond, swap=False):
    """Decides a condition on this path, forking when both are possible.

    swap: the new process takes the outcome of the current model, so that the
    case splits of a value do not build a chain of waiting processes."""
    if cond is True or cond is False:
        return cond
    c = as_z3bool(cond)
    if z3.is_true(c):
        return True
    if z3.is_false(c):
        return False
    key = c.get_id()
    if key in ST.decided:
        return ST.decided[key]
    s = z3.simplify(c)
    if z3.is_true(s):
        return True
    if z3.is_false(s):
        return False
    skey = s.get_id()
    if skey in ST.decided:
        return ST.decided[skey]
    m = current_model()
    v = z3.is_true(m.eval(s, model_completion=True))
    other = z3.Not(s) if v else s
    ST.keep.append(c)
    ST.keep.append(s)
    if not _check(other):
        ST.decided[key] = ST.decided[skey] = v
        return v
    other_model = ST.solver.model()
    ST.branches += 1
    if TRACE:
        _trace(str(s)[:60].replace("\n", " "))
    if ST.explorer.fork() is not swap:
        # child: the other outcome
        ST.solver.add(other)
        ST.keep.append(other)
        ST.model = other_model
        ST.decided[key] = ST.decided[skey] = not v
        return not v
    mine = s if v else z3.Not(s)
    ST.solver.add(mine)
    ST.keep.append(mine)
    ST.decided[key] = ST.decided[skey] = v
    return v


IDENTITY_HASH = False
MAX_SPLIT = 300
MAX_SPLIT_WIDE = 20
MAX_SPLIT_FLOAT = 6


def _note_concretise(what):
    f = sys._getframe(2)
    for _ in range(12):
        if f is None:
            break
        fn = f.f_code.co_filename
        if "symapg" not in fn:
            what += " at %s:%s" % (os.path.basename(fn), f.f_lineno)
            break
        f = f.f_back
    ST.concretised[what] = ST.concretised.get(what, 0) + 1


def split_int(x):
    """Complete case split of an integer term: returns a python int."""
    if not isinstance(x, SymInt):
        return x
    _note_concretise("int")
    wide = x.hi - x.lo > MAX_SPLIT
    if wide:
        # values at which rounding, wrapping and truncation show
        for v in (x.hi, x.lo, x.hi - (x.hi >> 3) - 1):
            m = feasible(x == v)
            if m is not None:
                ST.model = m
                if branch(x == v, True):
                    return v
    n = 0
    while True:
        m = current_model()
        v = m.eval(x.t, model_completion=True).as_signed_long()
        if branch(x == v, True):
            return v
        n += 1
        if n >= (MAX_SPLIT_WIDE if wide else MAX_SPLIT):
            ST.truncated.append("int split")
            raise PathDead("case split of a wide integer truncated")


# --------------------------------------------------------------------------
# symbolic booleans
# --------------------------------------------------------------------------


def textx_visit(frame):
    """A truth test of textX on its way to the objects below an attribute.

    The outcome decides only whether an object processor of the attribute's
    class runs; with none registered both outcomes do the same.
    """
    if not frame.f_code.co_filename.endswith("textx/model.py"):
        return False
    loc = frame.f_locals
    if "metaattr" not in loc or "metamodel" not in loc:
        return False
    name = loc["metaattr"].cls.__name__
    return loc["metamodel"].obj_processors.get(name) is None


class SymBool:
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    @property
    def __class__(self):
        return bool

    def __bool__(self):
        return branch(self.t)

    def __hash__(self):
        if IDENTITY_HASH:
            return self.t.get_id()
        return hash(bool(self))

    def __eq__(self, o):
        if isinstance(o, SymBool):
            return mkbool(self.t == o.t)
        if o is True or o is False:
            return mkbool(self.t if o else z3.Not(self.t))
        if isinstance(o, (int, float)):
            return self.int() == o
        return False

    def __ne__(self, o):
        return lnot(self.__eq__(o))

    def int(self):
        return SymInt(
            z3.If(self.t, z3.BitVecVal(1, 2), z3.BitVecVal(0, 2)), 0, 1
        )

    def __index__(self):
        return 1 if bool(self) else 0

    __int__ = __index__

    def __float__(self):
        return float(self.__index__())

    def __and__(self, o):
        if isinstance(o, SymBool) or o in (True, False):
            return land(self, o)
        return self.int() & o

    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, SymBool) or (o is True or o is False):
            return lor(self, o)
        return self.int() | o

    __ror__ = __or__

    def __lshift__(self, o):
        return self.int() << o

    def __add__(self, o):
        return self.int() + o

    __radd__ = __add__

    def __mul__(self, o):
        return self.int() * o

    __rmul__ = __mul__

    def __lt__(self, o):
        return self.int() < o

    def __le__(self, o):
        return self.int() <= o

    def __gt__(self, o):
        return self.int() > o

    def __ge__(self, o):
        return self.int() >= o

    def __str__(self):
        return "True" if bool(self) else "False"

    __repr__ = __str__

    def __format__(self, spec):
        return format(bool(self), spec)

    def bit_length(self):
        return self.int()

    def to_bytes(self, *a, **k):
        return self.int().to_bytes(*a, **k)


def mkbool(t):
    if t is True or t is False:
        return t
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    return SymBool(t)


def is_symbool(x):
    return type(x) is SymBool


def land(*xs):
    ts = []
    for x in xs:
        if type(x) is SymBool:
            ts.append(x.t)
        elif not x:
            return False
    if not ts:
        return True
    return mkbool(z3.And(*ts)) if len(ts) > 1 else SymBool(ts[0])


def lor(*xs):
    ts = []
    for x in xs:
        if type(x) is SymBool:
            ts.append(x.t)
        elif x:
            return True
    if not ts:
        return False
    return mkbool(z3.Or(*ts)) if len(ts) > 1 else SymBool(ts[0])


def lnot(x):
    if type(x) is SymBool:
        return mkbool(z3.Not(x.t))
    return not x


def implies(a, b):
    return lor(lnot(a), b)


def iff(a, b):
    return lor(land(a, b), land(lnot(a), lnot(b)))


# --------------------------------------------------------------------------
# symbolic integers: exact (the width of a term follows its interval)
# --------------------------------------------------------------------------


def width_for(lo, hi):
    w = 1
    if lo < 0:
        w = max(w, (-lo - 1).bit_length() + 1)
    if hi > 0:
        w = max(w, hi.bit_length() + 1)
    return w


def _ext(t, w):
    cur = t.size()
    if cur == w:
        return t
    if cur < w:
        return z3.SignExt(w - cur, t)
    return z3.Extract(w - 1, 0, t)


class SymInt:
    """An exact python integer: signed bit-vector plus an interval."""

    __slots__ = ("t", "lo", "hi")

    def __init__(self, t, lo, hi):
        self.lo = lo
        self.hi = hi
        self.t = _ext(t, width_for(lo, hi))

    @property
    def __class__(self):
        return int

    @staticmethod
    def const(v):
        return SymInt(z3.BitVecVal(v, width_for(v, v)), v, v)

    @staticmethod
    def lift(o):
        to = type(o)
        if to is SymInt:
            return o
        if to is SymBool:
            return o.int()
        if isinstance(o, bool):
            return SymInt.const(int(o))
        if isinstance(o, int):
            return SymInt.const(int(o))
        return None

    def _bin(self, o, lo, hi, fn):
        w = max(width_for(lo, hi), self.t.size(), o.t.size())
        return mkint(fn(_ext(self.t, w), _ext(o.t, w)), lo, hi)

    # arithmetic
    def __add__(self, o):
        p = SymInt.lift(o)
        if p is None:
            return SymFloat.of_int(self) + o if _isfloat(o) else NotImplemented
        return self._bin(p, self.lo + p.lo, self.hi + p.hi, lambda a, b: a + b)

    __radd__ = __add__

    def __sub__(self, o):
        p = SymInt.lift(o)
        if p is None:
            return SymFloat.of_int(self) - o if _isfloat(o) else NotImplemented
        return self._bin(p, self.lo - p.hi, self.hi - p.lo, lambda a, b: a - b)

    def __rsub__(self, o):
        p = SymInt.lift(o)
        if p is None:
            return o - SymFloat.of_int(self) if _isfloat(o) else NotImplemented
        return p.__sub__(self)

    def __mul__(self, o):
        if isinstance(o, (str, list, tuple, bytes)) and type(o) not in (
            SymInt,
            SymBool,
        ):
            return o * split_int(self)
        p = SymInt.lift(o)
        if p is None:
            return SymFloat.of_int(self) * o if _isfloat(o) else NotImplemented
        c = [a * b for a in (self.lo, self.hi) for b in (p.lo, p.hi)]
        return self._bin(p, min(c), max(c), lambda a, b: a * b)

    __rmul__ = __mul__

    def __neg__(self):
        return SymInt.const(0).__sub__(self)

    def __pos__(self):
        return self

    def __abs__(self):
        if branch((self >= 0).t if is_symbool(self >= 0) else self >= 0):
            return self
        return -self

    def __invert__(self):
        return -self - 1

    def _pow2(self, p):
        return p.lo == p.hi and p.lo > 0 and (p.lo & (p.lo - 1)) == 0

    def __floordiv__(self, o):
        p = SymInt.lift(o)
        if p is None:
            return NotImplemented
        if p.lo == p.hi and p.lo > 0:
            d = p.lo
            if self._pow2(p):
                return self >> (d.bit_length() - 1)
            w = max(self.t.size(), p.t.size()) + 1
            a, b = _ext(self.t, w), _ext(p.t, w)
            q, r = a / b, z3.SRem(a, b)
            t = z3.If(
                z3.And(r != 0, a < 0), q - z3.BitVecVal(1, w), q
            )
            return mkint(t, self.lo // d, self.hi // d)
        return split_int(self) // (
            split_int(o) if type(o) is SymInt else o
        )

    def __mod__(self, o):
        p = SymInt.lift(o)
        if p is None:
            return NotImplemented
        if p.lo == p.hi and p.lo > 0:
            return self - (self // o) * o
        return split_int(self) % (split_int(o) if type(o) is SymInt else o)

    def __rmod__(self, o):
        return o % split_int(self)

    def __rfloordiv__(self, o):
        return o // split_int(self)

    def __divmod__(self, o):
        return self // o, self % o

    def __truediv__(self, o):
        if _isfloat(o):
            return SymFloat.of_int(self) / o
        return split_int(self) / (split_int(o) if type(o) is SymInt else o)

    def __rtruediv__(self, o):
        if _isfloat(o):
            return o / SymFloat.of_int(self)
        return o / split_int(self)

    def __pow__(self, o, m=None):
        if isinstance(o, int) and type(o) is int and 0 <= o <= 3:
            r = SymInt.const(1)
            for _ in range(o):
                r = r * self
            return r
        return pow(split_int(self), split_int(o) if type(o) is SymInt else o)

    def __rpow__(self, o):
        return pow(o, split_int(self))

    def __lshift__(self, o):
        k = split_int(o) if type(o) is SymInt else int(o)
        if k < 0:
            raise ValueError("negative shift count")
        return self * (1 << k)

    def __rlshift__(self, o):
        return o << split_int(self)

    def __rshift__(self, o):
        k = split_int(o) if type(o) is SymInt else int(o)
        if k < 0:
            raise ValueError("negative shift count")
        w = max(self.t.size(), k + 1)
        return mkint(
            _ext(self.t, w) >> z3.BitVecVal(k, w), self.lo >> k, self.hi >> k
        )

    def __rrshift__(self, o):
        return o >> split_int(self)

    def _bit(self, o, fn):
        p = SymInt.lift(o)
        if p is None:
            return NotImplemented
        w = max(self.t.size(), p.t.size())
        if self.lo >= 0 and p.lo >= 0:
            lo, hi = 0, (1 << (w - 1)) - 1
        else:
            lo, hi = -(1 << (w - 1)), (1 << (w - 1)) - 1
        return mkint(fn(_ext(self.t, w), _ext(p.t, w)), lo, hi)

    def __or__(self, o):
        return self._bit(o, lambda a, b: a | b)

    __ror__ = __or__

    def __and__(self, o):
        r = self._bit(o, lambda a, b: a & b)
        if type(r) is SymInt and type(o) is int and o >= 0:
            return mkint(r.t, 0, o)
        return r

    __rand__ = __and__

    def __xor__(self, o):
        return self._bit(o, lambda a, b: a ^ b)

    __rxor__ = __xor__

    # comparison
    def _cmp(self, o, fn, ffn):
        if _isfloat(o):
            return ffn(SymFloat.of_int(self), o)
        p = SymInt.lift(o)
        if p is None:
            return NotImplemented
        w = max(self.t.size(), p.t.size())
        return mkbool(z3.simplify(fn(_ext(self.t, w), _ext(p.t, w))))

    def __eq__(self, o):
        if isinstance(o, float) and type(o) is float:
            if not o.is_integer():
                return False
            o = int(o)
        r = self._cmp(o, lambda a, b: a == b, lambda a, b: a == b)
        return False if r is NotImplemented else r

    def __ne__(self, o):
        return lnot(self.__eq__(o))

    def _range(self, o):
        if type(o) is float:
            # exact comparison with a float constant
            if o != o:
                return "nan"
            if o in (math.inf, -math.inf):
                return o
        return None

    def __lt__(self, o):
        if type(o) is float:
            if o == math.inf:
                return True
            if o == -math.inf or o != o:
                return False
            return self < math.ceil(o)
        p = SymInt.lift(o)
        if p is not None:
            if self.hi < p.lo:
                return True
            if self.lo >= p.hi:
                return False
        return self._cmp(o, lambda a, b: a < b, lambda a, b: a < b)

    def __le__(self, o):
        if type(o) is float:
            if o == math.inf:
                return True
            if o == -math.inf or o != o:
                return False
            return self <= math.floor(o)
        p = SymInt.lift(o)
        if p is not None:
            if self.hi <= p.lo:
                return True
            if self.lo > p.hi:
                return False
        return self._cmp(o, lambda a, b: a <= b, lambda a, b: a <= b)

    def __gt__(self, o):
        r = self.__le__(o)
        return r if r is NotImplemented else lnot(r)

    def __ge__(self, o):
        r = self.__lt__(o)
        return r if r is NotImplemented else lnot(r)

    def __bool__(self):
        if textx_visit(sys._getframe(1)):
            return True
        r = self != 0
        return r if isinstance(r, bool) and type(r) is bool else bool(r)

    # conversion: complete case splits
    def __index__(self):
        return split_int(self)

    __int__ = __index__

    def __float__(self):
        return float(split_int(self))

    def __hash__(self):
        if IDENTITY_HASH:
            return self.t.get_id()
        return hash(split_int(self))

    def __str__(self):
        return int_token(self, "")

    __repr__ = __str__

    def __format__(self, spec):
        return int_token(self, spec)

    def bit_length(self):
        n = max(abs(self.lo), abs(self.hi)).bit_length()
        w = self.t.size() + 1
        a = _ext(self.t, w)
        if self.lo < 0:
            a = z3.If(a < 0, -a, a)
        out_w = width_for(0, n)
        t = z3.BitVecVal(0, out_w)
        for k in range(n):
            # highest set bit wins: build from low to high
            t = z3.If(
                z3.Extract(k, k, a) == 1, z3.BitVecVal(k + 1, out_w), t
            )
        return mkint(t, 0, n)

    def bit_count(self):
        return split_int(self).bit_count()

    def is_integer(self):
        return True

    def conjugate(self):
        return self

    @property
    def real(self):
        return self

    @property
    def numerator(self):
        return self

    def __round__(self, n=None):
        return self

    def __trunc__(self):
        return self

    __floor__ = __ceil__ = __trunc__

    def to_bytes(self, length=1, byteorder="big", *, signed=False):
        length = split_int(length)
        lo = -(1 << (8 * length - 1)) if signed else 0
        hi = (
            (1 << (8 * length - 1)) - 1 if signed else (1 << (8 * length)) - 1
        )
        ok = land(self >= lo, self <= hi)
        if not branch(ok if not is_symbool(ok) else ok.t):
            raise OverflowError("int too big to convert")
        return int_bytes(self, length, byteorder == "little")


def mkint(t, lo, hi):
    if lo == hi:
        return lo
    t = z3.simplify(t)
    if z3.is_bv_value(t):
        return t.as_signed_long()
    return SymInt(t, lo, hi)


def int_bytes(x, length, little):
    if type(x) is not SymInt:
        return SymBytes(
            list((int(x) % (1 << (8 * length))).to_bytes(length, "little" if little else "big"))
        )
    t = _ext(x.t, max(8 * length, x.t.size()))
    bs = [z3.simplify(z3.Extract(8 * i + 7, 8 * i, t)) for i in range(length)]
    bs = [b.as_long() if z3.is_bv_value(b) else b for b in bs]
    if not little:
        bs.reverse()
    return SymBytes(bs)


# --------------------------------------------------------------------------
# symbolic floats (IEEE binary64)
# --------------------------------------------------------------------------

F64 = z3.Float64()
F32 = z3.Float32()
RNE = z3.RNE()


def _isfloat(o):
    return type(o) is SymFloat or type(o) is float


class SymFloat:
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    @property
    def __class__(self):
        return float

    @staticmethod
    def of_int(x):
        if type(x) is SymInt:
            return SymFloat(z3.fpSignedToFP(RNE, x.t, F64))
        return SymFloat(z3.FPVal(float(x), F64))

    @staticmethod
    def lift(o):
        to = type(o)
        if to is SymFloat:
            return o
        if to is SymInt:
            return SymFloat.of_int(o)
        if to is float or to is int or to is bool:
            return SymFloat(z3.FPVal(float(o), F64))
        return None

    def _cmp(self, o, fn):
        p = SymFloat.lift(o)
        if p is None:
            return NotImplemented
        return mkbool(z3.simplify(fn(self.t, p.t)))

    def __eq__(self, o):
        r = self._cmp(o, z3.fpEQ)
        return False if r is NotImplemented else r

    def __ne__(self, o):
        return lnot(self.__eq__(o))

    def __lt__(self, o):
        return self._cmp(o, z3.fpLT)

    def __le__(self, o):
        return self._cmp(o, z3.fpLEQ)

    def __gt__(self, o):
        return self._cmp(o, z3.fpGT)

    def __ge__(self, o):
        return self._cmp(o, z3.fpGEQ)

    def _arith(self, o, fn):
        p = SymFloat.lift(o)
        if p is None:
            return NotImplemented
        return SymFloat(fn(self.t, p.t))

    def __add__(self, o):
        return self._arith(o, lambda a, b: z3.fpAdd(RNE, a, b))

    __radd__ = __add__

    def __sub__(self, o):
        return self._arith(o, lambda a, b: z3.fpSub(RNE, a, b))

    def __rsub__(self, o):
        return SymFloat.lift(o) - self

    def __mul__(self, o):
        return self._arith(o, lambda a, b: z3.fpMul(RNE, a, b))

    __rmul__ = __mul__

    def __truediv__(self, o):
        return self._arith(o, lambda a, b: z3.fpDiv(RNE, a, b))

    def __neg__(self):
        return SymFloat(z3.fpNeg(self.t))

    def __pos__(self):
        return self

    def __abs__(self):
        return SymFloat(z3.fpAbs(self.t))

    def __bool__(self):
        if textx_visit(sys._getframe(1)):
            return True
        return branch(z3.Not(z3.fpIsZero(self.t)))

    def is_integer(self):
        return mkbool(
            z3.fpEQ(z3.fpRoundToIntegral(z3.RTZ(), self.t), self.t)
        )

    def __float__(self):
        return split_float(self)

    def __int__(self):
        return int(split_float(self))

    __trunc__ = __int__

    def __round__(self, n=None):
        return round(split_float(self), n)

    def __hash__(self):
        if IDENTITY_HASH:
            return self.t.get_id()
        return hash(split_float(self))

    def __str__(self):
        return float_token(self, "")

    __repr__ = __str__

    def __format__(self, spec):
        return float_token(self, spec)


def fp_value(m, t):
    v = m.eval(t, model_completion=True)
    b = m.eval(z3.fpToIEEEBV(v), model_completion=True).as_long()
    return _struct.unpack(">d", b.to_bytes(8, "big"))[0]


def awkward_float(x, v):
    """A value of the term with no short decimal form, if there is one."""
    bits = z3.fpToIEEEBV(x.t)
    low = z3.Extract(39, 0, bits) == z3.BitVecVal(0x5555555555, 40)
    moderate = z3.And(
        z3.UGE(z3.Extract(62, 52, bits), z3.BitVecVal(1023 - 30, 11)),
        z3.ULE(z3.Extract(62, 52, bits), z3.BitVecVal(1023 + 60, 11)),
    )
    for c in (z3.And(low, moderate), low):
        m = feasible(c)
        if m is not None:
            ST.model = m
            return fp_value(m, x.t)
    return v


def split_float(x):
    if type(x) is not SymFloat:
        return x
    _note_concretise("float")
    n = 0
    while True:
        v = fp_value(current_model(), x.t)
        if n == 0:
            v = awkward_float(x, v)
        c = z3.fpToIEEEBV(x.t) == z3.BitVecVal(
            int.from_bytes(_struct.pack(">d", v), "big"), 64
        )
        if branch(c, True):
            return v
        n += 1
        if n >= MAX_SPLIT_FLOAT:
            ST.truncated.append("float split")
            raise PathDead("case split of a float truncated")


# --------------------------------------------------------------------------
# symbolic bytes
# --------------------------------------------------------------------------


class SymBytes:
    __slots__ = ("b",)

    def __init__(self, b):
        self.b = list(b)

    @property
    def __class__(self):
        return bytes

    def __len__(self):
        return len(self.b)

    def __iter__(self):
        for x in self.b:
            yield byte_int(x)

    def __reversed__(self):
        return iter([byte_int(x) for x in reversed(self.b)])

    def __getitem__(self, i):
        if isinstance(i, slice):
            return SymBytes(self.b[i])
        return byte_int(self.b[i])

    def __add__(self, o):
        if type(o) is SymBytes:
            return SymBytes(self.b + o.b)
        if isinstance(o, (bytes, bytearray)):
            return SymBytes(self.b + list(o))
        return NotImplemented

    def __radd__(self, o):
        if isinstance(o, (bytes, bytearray)):
            return SymBytes(list(o) + self.b)
        return NotImplemented

    def __mul__(self, n):
        return SymBytes(self.b * int(n))

    def __bool__(self):
        return bool(self.b)

    def __eq__(self, o):
        if type(o) is SymBytes:
            ob = o.b
        elif isinstance(o, (bytes, bytearray)):
            ob = list(o)
        else:
            return False
        if len(ob) != len(self.b):
            return False
        return land(*[byte_eq(a, b) for a, b in zip(self.b, ob)])

    def __ne__(self, o):
        return lnot(self == o)

    def __hash__(self):
        if IDENTITY_HASH:
            return id(self)
        return hash(self.concrete())

    def concrete(self):
        return bytes(split_int(byte_int(x)) for x in self.b)

    def __bytes__(self):
        return self.concrete()

    def ljust(self, n, fill=b"\0"):
        return SymBytes(self.b + list(fill) * max(0, n - len(self.b)))

    def rjust(self, n, fill=b"\0"):
        return SymBytes(list(fill) * max(0, n - len(self.b)) + self.b)

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return getattr(self.concrete(), name)


def byte_int(x):
    if isinstance(x, int):
        return x
    return mkint(z3.ZeroExt(1, x), 0, 255)


def byte_eq(a, b):
    ai, bi = isinstance(a, int), isinstance(b, int)
    if ai and bi:
        return a == b
    if ai:
        a = z3.BitVecVal(a, 8)
    if bi:
        b = z3.BitVecVal(b, 8)
    return mkbool(z3.simplify(a == b))


def sym_struct_pack(fmt, *vals):
    """struct.pack with symbolic values (explicit or native byte order)."""
    order = "@"
    i = 0
    if fmt[:1] in "@=<>!":
        order, i = fmt[0], 1
    little = order in "<" or (order in "@=" and sys.byteorder == "little")
    out = []
    vals = list(vals)
    items = []
    num = ""
    for ch in fmt[i:]:
        if ch.isdigit():
            num += ch
            continue
        if ch.isspace():
            continue
        n = int(num) if num else 1
        num = ""
        if ch in "sp":
            items.append((ch, n))
        else:
            items.extend([(ch, 1)] * n)
    need = sum(0 if c == "x" else 1 for c, _ in items)
    if need != len(vals):
        raise _struct.error(
            "pack expected %d items for packing (got %d)" % (need, len(vals))
        )
    sizes = {
        "b": 1, "B": 1, "h": 2, "H": 2, "i": 4, "I": 4, "l": 4, "L": 4,
        "q": 8, "Q": 8,
    }
    if order == "@" and len(items) > 1:
        concrete = [concretise_any(v) for v in vals]
        return _struct.pack(fmt, *concrete)
    for ch, n in items:
        if ch == "x":
            out.append(0)
            continue
        v = vals.pop(0)
        if ch in sizes:
            size = _struct.calcsize(("@" if order == "@" else "=") + ch)
            if type(v) is SymFloat or isinstance(v, float):
                raise _struct.error("required argument is not an integer")
            if type(v) is SymBool:
                v = v.int()
            if type(v) is not SymInt:
                out.extend(_struct.pack(("<" if little else ">") + ch, v) if order != "@" else _struct.pack(ch, v))
                continue
            if ch.islower():
                lo, hi = -(1 << (8 * size - 1)), (1 << (8 * size - 1)) - 1
            else:
                lo, hi = 0, (1 << (8 * size)) - 1
            if not bool(v >= lo) or not bool(v <= hi):
                raise _struct.error("argument out of range")
            out.extend(int_bytes(v, size, little).b)
        elif ch in "fd":
            if type(v) is SymInt:
                v = SymFloat.of_int(v)
            if type(v) is not SymFloat:
                out.extend(_struct.pack(("<" if little else ">") + ch, v))
                continue
            if ch == "d":
                bits = z3.fpToIEEEBV(v.t)
                size = 8
            else:
                f = z3.fpToFP(RNE, v.t, F32)
                if branch(
                    z3.And(z3.fpIsInf(f), z3.Not(z3.fpIsInf(v.t)))
                ):
                    raise OverflowError("float too large to pack with f format")
                bits = z3.fpToIEEEBV(f)
                size = 4
            bs = [
                z3.simplify(z3.Extract(8 * k + 7, 8 * k, bits))
                for k in range(size)
            ]
            bs = [b.as_long() if z3.is_bv_value(b) else b for b in bs]
            if not little:
                bs.reverse()
            out.extend(bs)
        elif ch == "?":
            out.append(1 if bool(v) else 0)
        else:
            v = concretise_any(v)
            out.extend(_struct.pack("%s%d%s" % ("=", n, ch), v))
    return SymBytes(out)


def is_sym(x):
    return type(x) in (SymInt, SymBool, SymFloat, SymBytes)


def concretise_any(v):
    t = type(v)
    if t is SymInt:
        return split_int(v)
    if t is SymBool:
        return bool(v)
    if t is SymFloat:
        return split_float(v)
    if t is SymBytes:
        return v.concrete()
    if isinstance(v, str):
        return concretise_str(v)
    return v


# --------------------------------------------------------------------------
# symbolic text: ordinary python strings with private-use characters
# --------------------------------------------------------------------------

TOKEN_BASE = 0xF0000
TOKEN_END = 0x10FFFD
PUA = "\U000f0000-\U0010fffd"


class Char:
    """One character with a finite domain."""

    __slots__ = ("t", "dom", "lower", "cache")

    def __init__(self, t, dom):
        self.t = t
        self.dom = dom
        self.cache = {}


class Num:
    """The decimal (or otherwise formatted) text of a number."""

    __slots__ = ("v", "spec", "kind")

    def __init__(self, v, spec, kind):
        self.v = v
        self.spec = spec
        self.kind = kind


TOKENS = []
_num_cache = {}


def reset_tokens():
    TOKENS.clear()
    _num_cache.clear()


def _register(entry):
    TOKENS.append(entry)
    cp = TOKEN_BASE + len(TOKENS) - 1
    if cp > TOKEN_END:
        raise Inconclusive("too many text tokens")
    return chr(cp)


def char_token(t, dom):
    return _register(Char(t, frozenset(dom)))


def int_token(x, spec):
    if type(x) is not SymInt:
        return format(int(x), spec)
    if spec and spec[-1] in "eEfFgG%":
        return format(float(split_int(x)), spec)
    if spec and spec[-1] == "c":
        return format(split_int(x), spec)
    key = ("i", x.t.get_id(), spec)
    if key not in _num_cache:
        ST.keep.append(x.t)
        _num_cache[key] = _register(Num(x, spec, "i"))
    return _num_cache[key]


EXACT_FLOAT = re.compile(r"[<>^]?\d*(r|\.(1[7-9]|[2-9]\d)g|\.(1[6-9]|[2-9]\d)e)?")


def float_token(x, spec):
    key = ("f", x.t.get_id(), spec)
    if key not in _num_cache:
        ST.keep.append(x.t)
        _num_cache[key] = _register(Num(x, spec, "f"))
    return _num_cache[key]


def has_tok(s):
    # private-use planes 15/16 are the largest code points
    return bool(s) and max(s) >= "\U000f0000"


def tok(ch):
    i = ord(ch) - TOKEN_BASE
    return TOKENS[i] if 0 <= i < len(TOKENS) else None


def has_num(s):
    return has_tok(s) and any(type(tok(c)) is Num for c in s)


def ch_dom(ch):
    e = tok(ch)
    if e is None:
        return (ch,)
    return e.dom


def ch_eq(a, b):
    """Equality of two single characters."""
    if a == b:
        return True
    ea, eb = tok(a), tok(b)
    if ea is None and eb is None:
        return False
    if ea is not None and eb is not None:
        if not (ea.dom & eb.dom):
            return False
        return mkbool(z3.simplify(ea.t == eb.t))
    if ea is None:
        ea, eb, a, b = eb, ea, b, a
    if b not in ea.dom:
        return False
    if len(ea.dom) == 1:
        return True
    return mkbool(ea.t == z3.BitVecVal(ord(b), 8))


def _ch_term(a):
    e = tok(a)
    return z3.BitVecVal(ord(a), 8) if e is None else e.t


def ch_map(ch, fn, name):
    """Applies a character mapping str->str (one character) to a token."""
    e = tok(ch)
    if e is None:
        return fn(ch)
    if type(e) is Num:
        return ch
    if name in e.cache:
        return e.cache[name]
    changed = {c: fn(c) for c in e.dom if fn(c) != c}
    if not changed:
        e.cache[name] = ch
        return ch
    if any(len(v) != 1 or ord(v) > 255 for v in changed.values()):
        return fn(concretise_str(ch))
    deltas = {ord(v) - ord(c) for c, v in changed.items()}
    cs = sorted(changed)
    if len(deltas) == 1 and len(changed) == len(e.dom):
        t = e.t + z3.BitVecVal(deltas.pop() & 255, 8)
    else:
        t = e.t
        # group runs with the same delta
        run = []
        groups = []
        for c in cs:
            d = ord(changed[c]) - ord(c)
            if run and ord(c) == ord(run[-1]) + 1 and run_d == d:
                run.append(c)
            else:
                if run:
                    groups.append((run, run_d))
                run, run_d = [c], d
        groups.append((run, run_d))
        for g, d in groups:
            lo, hi = z3.BitVecVal(ord(g[0]), 8), z3.BitVecVal(ord(g[-1]), 8)
            cond = (
                e.t == lo
                if len(g) == 1
                else z3.And(z3.UGE(e.t, lo), z3.ULE(e.t, hi))
            )
            t = z3.If(cond, e.t + z3.BitVecVal(d & 255, 8), t)
    dom = frozenset(changed.get(c, c) for c in e.dom)
    if len(dom) == 1:
        r = next(iter(dom))
    else:
        r = char_token(t, dom)
    e.cache[name] = r
    return r


def _canon_int_text(s):
    return s.lstrip("-").isdigit() and str(int(s)) == s


def text_eq(a, b):
    """Equality of two python strings with tokens: bool or SymBool."""
    if a == b:
        return True
    ta, tb = has_tok(a), has_tok(b)
    if not ta and not tb:
        return False
    na, nb = ta and has_num(a), tb and has_num(b)
    if not na and not nb:
        if len(a) != len(b):
            return False
        conds = []
        for x, y in zip(a, b):
            c = ch_eq(x, y)
            if c is False:
                return False
            if c is not True:
                conds.append(c)
        return land(*conds)
    # numbers inside: strip what is equal at both ends
    conds = []
    while a and b and type(tok(a[0])) is not Num and type(tok(b[0])) is not Num:
        c = ch_eq(a[0], b[0])
        if c is False:
            return False
        conds.append(c)
        a, b = a[1:], b[1:]
    while a and b and type(tok(a[-1])) is not Num and type(tok(b[-1])) is not Num:
        c = ch_eq(a[-1], b[-1])
        if c is False:
            return False
        conds.append(c)
        a, b = a[:-1], b[:-1]
    if not a or not b:
        # a number is never the empty string
        return land(*conds) if a == b else False
    if len(a) > 1 and len(b) == 1:
        a, b = b, a
    if len(a) == 1:
        ea = tok(a)
        if type(ea) is Num:
            eb = tok(b) if len(b) == 1 else None
            if type(eb) is Num and ea.spec == eb.spec and ea.kind == eb.kind:
                if ea.kind == "i":
                    return land(ea.v == eb.v, *conds)
                return land(
                    mkbool(
                        z3.fpToIEEEBV(ea.v.t) == z3.fpToIEEEBV(eb.v.t)
                    ),
                    *conds
                )
            if not has_tok(b):
                if ea.kind == "i" and ea.spec in ("", "d"):
                    if _canon_int_text(b):
                        return land(ea.v == int(b), *conds)
                    return False
                if ea.kind == "f" and ea.spec == "":
                    try:
                        fb = float(b)
                    except ValueError:
                        return False
                    if repr(fb) != b:
                        return False
                    # by its bits: -0.0 and 0.0 have different texts
                    bits = int.from_bytes(_struct.pack(">d", fb), "big")
                    return land(
                        mkbool(
                            z3.fpToIEEEBV(ea.v.t) == z3.BitVecVal(bits, 64)
                        ),
                        *conds
                    )
    return land(concretise_str(a) == concretise_str(b), *conds)


def text_lt(a, b):
    """a < b, lexicographic."""
    if not has_tok(a) and not has_tok(b):
        return a < b
    if has_num(a):
        a = concretise_nums(a)
    if has_num(b):
        b = concretise_nums(b)
    res = mkbool(z3.BoolVal(len(a) < len(b)))
    for x, y in reversed(list(zip(a, b))):
        tx, ty = _ch_term(x), _ch_term(y)
        r = as_z3bool(res)
        res = mkbool(
            z3.simplify(z3.Or(z3.ULT(tx, ty), z3.And(tx == ty, r)))
        )
    return res


def concretise_ch(ch):
    e = tok(ch)
    if e is None:
        return ch
    if type(e) is Num:
        v = split_int(e.v) if e.kind == "i" else split_float(e.v)
        return format(v, e.spec)
    for d in sorted(e.dom)[:-1]:
        if branch(e.t == z3.BitVecVal(ord(d), 8)):
            return d
    return sorted(e.dom)[-1]


def concretise_nums(s):
    if not has_num(s):
        return s
    return "".join(
        concretise_ch(c) if type(tok(c)) is Num else c for c in s
    )


def concretise_str(s):
    if not has_tok(s):
        return s
    _note_concretise("text")
    return "".join(concretise_ch(c) for c in s)


def render_ch(ch, m):
    e = tok(ch)
    if e is None:
        return ch
    if type(e) is Num:
        if e.kind == "i":
            return format(
                m.eval(e.v.t, model_completion=True).as_signed_long(), e.spec
            )
        return format(fp_value(m, e.v.t), e.spec)
    return chr(m.eval(e.t, model_completion=True).as_long())


def render(s, m):
    """The text under a model."""
    if not has_tok(s):
        return s
    return "".join(render_ch(c, m) for c in s)


def render_bytes(b, m):
    if isinstance(b, bytes) and type(b) is bytes:
        return b
    return bytes(
        x if isinstance(x, int) else m.eval(x, model_completion=True).as_long()
        for x in b.b
    )
