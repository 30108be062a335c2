"""Sessions: one harness text, run symbolically or with concrete values."""
import base64
import builtins
import io
import json
import os
import posixpath
import re
import socket
import struct
import sys
import types
import traceback

import z3

from . import core, cread, rt
from .core import ST, SymBool, SymFloat, SymInt, SymBytes


class Result:
    """What one invocation of the command-line program did."""

    def __init__(self, status, files, stdout=""):
        self.status = status  # exit status, or "hang"
        self.files = files  # path below the output directory -> str or bytes
        self.stdout = stdout

    @property
    def ok(self):
        return self.status == 0

    @property
    def hang(self):
        return self.status == "hang"

    @property
    def rejected(self):
        return not self.ok and not self.hang

    def text(self, name):
        return self.files.get(name)


def split_path(p):
    return posixpath.normpath(p)


# --------------------------------------------------------------------------
# virtual file system of symbolic runs
# --------------------------------------------------------------------------


class VFile:
    def __init__(self, vfs, entry, mode):
        self.vfs, self.entry, self.mode = vfs, entry, mode
        self.closed = False
        self.name = entry[0]
        self.done = False

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.closed = True
        return False

    def close(self):
        self.closed = True

    def flush(self):
        pass

    def writable(self):
        return "r" not in self.mode

    def readable(self):
        return "r" in self.mode

    def write(self, data):
        if "b" in self.mode:
            if not isinstance(data, (bytes, bytearray)):
                raise TypeError("a bytes-like object is required")
            if type(data) not in (bytes, bytearray) and not hasattr(data, "b"):
                data = bytes(data)
        elif not isinstance(data, str):
            raise TypeError("write() argument must be str")
        self.entry[1].append(data)
        self.entry[2] = self.vfs.now()
        return len(data)

    def writelines(self, lines):
        for line in lines:
            self.write(line)

    def read(self, *a):
        if self.done:
            return b"" if "b" in self.mode else ""
        self.done = True
        text = self.vfs.content(self.entry)
        if "b" in self.mode and isinstance(text, str):
            if core.has_tok(text):
                text = core.concretise_str(text)
            return text.encode()
        return text

    def fileno(self):
        return FAKE_FD

    def __iter__(self):
        return iter(self.read().splitlines(True))

    def readlines(self):
        return self.read().splitlines(True)


class VFS:
    def __init__(self, inputs):
        self.clock = 1700000000
        self.entries = [[k, [v], self.now()] for k, v in inputs.items()]
        self.fds = {}
        self.dirs = {"in"}
        for k in inputs:
            d = posixpath.dirname(k)
            while d:
                self.dirs.add(d)
                d = posixpath.dirname(d)
        self.ops = 0

    def now(self):
        """File times: every change is later than the one before."""
        self.clock += 1
        return self.clock

    @staticmethod
    def local(path):
        """The path relative to the run directory, or None."""
        try:
            p = os.fspath(path)
        except TypeError:
            return None
        if isinstance(p, bytes):
            return None
        p = posixpath.normpath(p)
        cwd = os.getcwd()
        if p.startswith(cwd + "/"):
            p = p[len(cwd) + 1 :]
        if p in ("in", "out") or p.startswith("in/") or p.startswith("out/"):
            return p
        return None

    def find(self, p):
        for e in self.entries:
            if rt.truth(rt.eq(e[0], p)):
                return e
        return None

    def content(self, e):
        parts = e[1]
        if any(not isinstance(x, str) for x in parts):
            out = []
            for x in parts:
                out.extend(x.b if hasattr(x, "b") else list(x))
            if all(isinstance(b, int) for b in out):
                return bytes(out)
            return SymBytes(out)
        return "".join(parts)

    def open(self, p, mode):
        e = self.find(p)
        if "r" in mode:
            if e is None:
                raise FileNotFoundError(p)
            return VFile(self, e, mode)
        d = posixpath.dirname(p)
        if d and d not in self.dirs:
            raise FileNotFoundError(p)
        if "x" in mode and e is not None:
            raise FileExistsError(p)
        if e is None:
            e = [p, [], self.now()]
            self.entries.append(e)
        elif "w" in mode:
            e[1], e[2] = [], self.now()
        return VFile(self, e, mode)

    def outputs(self):
        return [
            (e[0][4:], self.content(e))
            for e in self.entries
            if e[0].startswith("out/")
        ]


REAL_OPEN = builtins.open
VFS_NOW = None
_patched = False
FAKE_FD = 1 << 20  # and above: descriptors of virtual files


def patch_os():
    """Redirects file operations on in/ and out/ to the virtual files."""
    global _patched
    if _patched:
        return
    _patched = True

    def my_open(file, mode="r", *a, **k):
        if isinstance(file, int) and VFS_NOW is not None and file in VFS_NOW.fds:
            e = VFS_NOW.fds[file]
            if "w" in mode:
                e[1] = []
            return VFile(VFS_NOW, e, mode)
        p = VFS.local(file) if VFS_NOW is not None and not isinstance(file, int) else None
        if p is None:
            return REAL_OPEN(file, mode, *a, **k)
        return VFS_NOW.open(p, mode)

    builtins.open = my_open
    io.open = my_open

    def wrap(mod, name, fn):
        real = getattr(mod, name)

        def f(path, *a, **k):
            p = None
            if VFS_NOW is not None and not isinstance(path, int):
                p = VFS.local(path)
            if p is None:
                return real(path, *a, **k)
            return fn(p, *a, **k)

        setattr(mod, name, f)

    def isdir(p):
        return p in VFS_NOW.dirs

    def isfile(p):
        return VFS_NOW.find(p) is not None

    def mkdir(p, *a, **k):
        if p in VFS_NOW.dirs or VFS_NOW.find(p):
            raise FileExistsError(p)
        d = posixpath.dirname(p)
        if d and d not in VFS_NOW.dirs:
            raise FileNotFoundError(p)
        VFS_NOW.dirs.add(p)

    def makedirs(p, mode=0o777, exist_ok=False):
        if p in VFS_NOW.dirs and not exist_ok:
            raise FileExistsError(p)
        q = p
        while q:
            VFS_NOW.dirs.add(q)
            q = posixpath.dirname(q)

    def remove(p, *a, **k):
        e = VFS_NOW.find(p)
        if e is None:
            raise FileNotFoundError(p)
        VFS_NOW.entries.remove(e)

    def replace(p, q, *a, **k):
        e = VFS_NOW.find(p)
        if e is None:
            raise FileNotFoundError(p)
        q = VFS.local(q)
        old = VFS_NOW.find(q)
        if old is not None and old is not e:
            VFS_NOW.entries.remove(old)
        e[0] = q

    def listdir(p="."):
        if p not in VFS_NOW.dirs:
            raise FileNotFoundError(p)
        return [
            x[len(p) + 1 :]
            for x in [e[0] for e in VFS_NOW.entries] + sorted(VFS_NOW.dirs)
            if x.startswith(p + "/") and "/" not in x[len(p) + 1 :]
        ]

    def stat(p, *a, **k):
        if p in VFS_NOW.dirs:
            return os.stat_result((0o40755, 0, 0, 1, 0, 0, 0, 0, 0, 0))
        e = VFS_NOW.find(p)
        if e is not None:
            return os.stat_result((0o100644, 0, 0, 1, 0, 0, getsize(p), e[2], e[2], e[2]))
        raise FileNotFoundError(p)

    def getsize(p):
        e = VFS_NOW.find(p)
        if e is None:
            if p in VFS_NOW.dirs:
                return 4096
            raise FileNotFoundError(p)
        text = VFS_NOW.content(e)
        if isinstance(text, str) and not core.has_tok(text):
            return len(text.encode())
        return rt.r_len(text)

    def getmtime(p):
        e = VFS_NOW.find(p)
        if e is None:
            if p in VFS_NOW.dirs:
                return float(1700000000)
            raise FileNotFoundError(p)
        return float(e[2])

    def os_open(p, flags, *a, **k):
        e = VFS_NOW.find(p)
        if e is None:
            if not flags & os.O_CREAT:
                raise FileNotFoundError(p)
            VFS_NOW.open(p, "w")
            e = VFS_NOW.find(p)
        elif flags & os.O_EXCL and flags & os.O_CREAT:
            raise FileExistsError(p)
        elif flags & os.O_TRUNC:
            e[1], e[2] = [], VFS_NOW.now()
        fd = FAKE_FD + 1 + len(VFS_NOW.fds)
        VFS_NOW.fds[fd] = e
        return fd

    def utime(p, *a, **k):
        e = VFS_NOW.find(p)
        if e is None:
            raise FileNotFoundError(p)
        e[2] = VFS_NOW.now()

    def on_fd(name):
        """Operations on a virtual descriptor do nothing."""
        real = getattr(os, name)

        def f(fd, *a, **k):
            if isinstance(fd, int) and fd >= FAKE_FD:
                return None
            return real(fd, *a, **k)

        setattr(os, name, f)

    def os_write(fd, data, real=os.write):
        if isinstance(fd, int) and fd > FAKE_FD:
            return VFile(VFS_NOW, VFS_NOW.fds[fd], "ab").write(data)
        return real(fd, data)

    def os_fdopen(fd, mode="r", *a, real=os.fdopen, **k):
        if isinstance(fd, int) and fd > FAKE_FD:
            return my_open(fd, mode)
        return real(fd, mode, *a, **k)

    def scandir(p="."):
        class Entry:
            def __init__(self, name):
                self.name, self.path = name, p + "/" + name

            is_file = lambda self, **k: isfile(self.path)
            is_dir = lambda self, **k: isdir(self.path)
            stat = lambda self, **k: stat(self.path)
            __fspath__ = lambda self: self.path

        class Found(list):
            __enter__ = lambda self: self
            __exit__ = lambda self, *a: None
            close = lambda self: None

        return Found(Entry(n) for n in listdir(p))

    for mod in (os.path,):
        wrap(mod, "isdir", isdir)
        wrap(mod, "isfile", isfile)
        wrap(mod, "exists", lambda p: isdir(p) or isfile(p))
        wrap(mod, "getsize", getsize)
        wrap(mod, "getmtime", getmtime)
        wrap(mod, "getctime", getmtime)
        wrap(mod, "islink", lambda p: False)
    import shutil

    shutil._USE_CP_SENDFILE = False
    wrap(os, "open", os_open)
    wrap(os, "utime", utime)
    wrap(os, "chmod", lambda p, *a, **k: None)
    wrap(os, "access", lambda p, *a, **k: isdir(p) or isfile(p))
    wrap(os, "scandir", scandir)
    for n in ("close", "fsync", "fchmod", "ftruncate"):
        on_fd(n)
    os.write = os_write
    os.fdopen = os_fdopen
    wrap(os, "mkdir", mkdir)
    wrap(os, "makedirs", makedirs)
    wrap(os, "remove", remove)
    wrap(os, "unlink", remove)
    wrap(os, "rename", replace)
    wrap(os, "replace", replace)
    wrap(os, "listdir", listdir)
    wrap(os, "stat", stat)
    wrap(os, "lstat", stat)


# --------------------------------------------------------------------------
# sentinels: literals of the .asn text that stand for symbolic values
# --------------------------------------------------------------------------

INT_BASE = 7770000000000000000000000001
SENT_INT = {}
SENT_FLOAT = {}
SENT_NAME = {}
# letters only: what a name may consist of is decided by check_rule
_SENT_RE = re.compile(r"[zZ]qx[a-j]+w")
RAW = set()  # sentinels of texts that need not be well-formed names
KNOWN_RULES = {
    r"[a-z][a-z\d]*(-[a-z\d]+)*",
    r"[A-Z][a-z\d]*(-[a-z\d]+)*",
}


def desentinel(v):
    if isinstance(v, str):
        if "qx" in v:
            return _SENT_RE.sub(lambda m: SENT_NAME.get(m.group(0), m.group(0)), v)
        return v
    if type(v) is int:
        return SENT_INT.get(v, v)
    if type(v) is float:
        return SENT_FLOAT.get(v, v)
    return v


def check_rule(value, rule):
    """The parser accepted a placeholder: would it accept the text?"""
    pattern = getattr(rule, "to_match_regex", None)
    if pattern is None:
        return
    if value in SENT_NAME and value not in RAW and pattern in KNOWN_RULES:
        return  # a well-formed name
    text = desentinel(value)
    from . import symre
    from textx.exceptions import TextXSyntaxError

    flags = re.I if getattr(rule, "ignore_case", False) else 0
    flags |= getattr(rule, "explicit_flags", 0) or 0
    try:
        ok = symre.fullmatch(pattern, text, flags)
    except symre.Unsupported as e:
        raise core.Inconclusive("expression %s: %s" % (pattern, e))
    if not core.branch(ok):
        raise TextXSyntaxError("name does not match " + pattern)


def hook_textx():
    from textx.metamodel import TextXMetaModel

    real = TextXMetaModel.convert

    def convert(self, value, _type):
        if isinstance(value, str) and "qx" in value:
            f = sys._getframe(1)
            node = f.f_locals.get("nt") or f.f_locals.get("node")
            check_rule(value, getattr(node, "rule", None))
        return desentinel(real(self, value, _type))

    TextXMetaModel.convert = convert


# --------------------------------------------------------------------------
# sessions
# --------------------------------------------------------------------------


class Stop(Exception):
    """The harness gives up this path after a failed check."""


class Base:
    symbolic = False

    def __init__(self):
        self.covered = set()
        self.results = []  # (files, argv, Result)
        self.notes = []

    def cover(self, label):
        self.covered.add(label)

    def flag(self, label):
        return bool(self.choose(label, 2))

    def pick(self, label, options):
        return options[self.choose(label, len(options))]

    @staticmethod
    def eq(a, b):
        return rt.eq(a, b)

    @staticmethod
    def conc(text):
        """Plain text (a complete case split over symbolic parts)."""
        return core.concretise_str(text)

    @staticmethod
    def truth(x):
        return bool(x)

    def file(self, res, name):
        """The content of an output file, None if there is none."""
        for k, v in res.files.items():
            if rt.truth(rt.eq(k, name)):
                return v
        return None

    def c(self, res, name):
        """A parsed C file; a failed check when missing or malformed."""
        t = self.file(res, name)
        if t is None:
            self.fail("missing file")
        try:
            return cread.parse_c(t)
        except cread.Bad as e:
            if str(e) == "array of bit-fields":
                self.fail("array of bit-fields")
            self.fail("malformed C file")

    def cosmos(self, res, name="tgt.txt"):
        t = self.file(res, name)
        if t is None:
            self.fail("missing file")
        try:
            return cread.parse_cosmos(t)
        except cread.Bad as e:
            self.fail("malformed COSMOS file")

    def intval(self, text, label):
        """The int a numeral stands for (plain int after case splits)."""
        v = None if text is None else self.num(text)
        if v is None or isinstance(v, float):
            self.fail(label)
        return v

    def small(self, text, label):
        v = self.intval(text, label)
        return core.split_int(v) if type(v) is SymInt else v


def name_ok(s):
    return True


class SymSession(Base):
    symbolic = True

    def __init__(self, runner):
        Base.__init__(self)
        self.runner = runner
        self.vars = []
        self.candidates = []
        self.failed = False
        self.checks = 0

    # inputs ---------------------------------------------------------------
    def int(self, label, lo, hi):
        self.fresh(label)
        w = core.width_for(lo, hi)
        t = z3.BitVec("i:" + label, w)
        x = SymInt(t, lo, hi)
        ST.solver.add(t >= z3.BitVecVal(lo, w), t <= z3.BitVecVal(hi, w))
        if ST.model is not None:
            ST.model = None
        self.vars.append((label, "int", x))
        return x

    def float(self, label):
        self.fresh(label)
        t = z3.FP("f:" + label, core.F64)
        ST.solver.add(z3.Not(z3.fpIsNaN(t)), z3.Not(z3.fpIsInf(t)))
        ST.model = None
        x = SymFloat(t)
        self.vars.append((label, "float", x))
        return x

    def bool(self, label):
        self.fresh(label)
        t = z3.Bool("b:" + label)
        x = SymBool(t)
        self.vars.append((label, "bool", x))
        return x

    def text(self, label, length, alphabet, first=None):
        """A text of the given length over an alphabet."""
        self.fresh(label)
        chars = []
        for i in range(length):
            dom = sorted(set(first if (i == 0 and first) else alphabet))
            t = z3.BitVec("c:%s:%d" % (label, i), 8)
            if len(dom) == 1:
                chars.append(dom[0])
                continue
            ST.solver.add(
                z3.Or(*[t == z3.BitVecVal(ord(d), 8) for d in dom])
            )
            chars.append(core.char_token(t, dom))
        ST.model = None
        s = "".join(chars)
        self.vars.append((label, "text", s))
        return s

    def name(self, label, length, alphabet="ab1-", capital=False, first=None):
        first = first or [c for c in alphabet if c.isalpha()]
        if capital:
            first = [c.upper() for c in first]
        s = self.text(label, length, alphabet, first)
        self._grammar(s)
        return s

    def _grammar(self, s):
        # no '-' at the end and no two in a row
        for i, c in enumerate(s):
            d = core.ch_eq(c, "-")
            if i == len(s) - 1:
                core.assume(core.lnot(d))
            elif i > 0:
                core.assume(
                    core.lnot(core.land(d, core.ch_eq(s[i + 1], "-")))
                )

    def choose(self, label, n):
        self.fresh(label)
        if n == 1:
            self.vars.append((label, "choice", 0))
            return 0
        x = self.int("choose:" + label, 0, n - 1)
        self.vars.pop()
        v = core.split_int(x)
        self.vars.append((label, "choice", v))
        return v

    def fresh(self, label):
        assert all(v[0] != label for v in self.vars), "label used twice: " + label

    def assume(self, cond):
        core.assume(cond)

    # source text ----------------------------------------------------------
    def lit(self, v):
        """Source text of a value."""
        t = type(v)
        if t is SymInt:
            for k, w in SENT_INT.items():
                if w is v:
                    return str(k)
            k = INT_BASE + len(SENT_INT)
            SENT_INT[k] = v
            return str(k)
        if t is SymFloat:
            for k, w in SENT_FLOAT.items():
                if w is v:
                    return repr(k)
            k = 7770000.5 + len(SENT_FLOAT)
            SENT_FLOAT[k] = v
            return repr(k)
        if t is SymBool:
            return "TRUE" if bool(v) else "FALSE"
        if isinstance(v, bool):
            return "TRUE" if v else "FALSE"
        if isinstance(v, str):
            if not core.has_tok(v):
                return v
            for k, w in SENT_NAME.items():
                if w == v and k[0].isupper() == self._upper(v):
                    return k
            k = self._sentinel("Z" if self._upper(v) else "z")
            SENT_NAME[k] = v
            return k
        if isinstance(v, float):
            return repr(v)
        return str(v)

    @staticmethod
    def _sentinel(first):
        n = "".join("abcdefghij"[int(d)] for d in str(len(SENT_NAME)))
        return first + "qx" + n + "w"

    def raw(self, v, capital):
        """Source text of a text that may not be a well-formed name."""
        if not core.has_tok(v):
            return v
        k = self._sentinel("Z" if capital else "z")
        SENT_NAME[k] = v
        RAW.add(k)
        return k

    @staticmethod
    def _upper(v):
        return all(d.isupper() for d in core.ch_dom(v[0]))

    # outputs --------------------------------------------------------------
    def check(self, cond, label):
        self.checks += 1
        if cond is True:
            return
        bad = core.lnot(cond)
        m = core.feasible(bad)
        if m is None:
            return
        if not any(c[0] == label for c in self.candidates):
            self.candidates.append((label, self.values(m)))
        self.failed = True
        if core.feasible(cond) is None:
            raise Stop(label)
        core.assume(cond)

    def fail(self, label):
        self.check(False, label)

    def values(self, m):
        out = {}
        for label, kind, x in self.vars:
            if kind == "int":
                out[label] = (
                    m.eval(x.t, model_completion=True).as_signed_long()
                    if type(x) is SymInt
                    else x
                )
            elif kind == "float":
                out[label] = core.fp_value(m, x.t).hex()
            elif kind == "bool":
                out[label] = z3.is_true(m.eval(x.t, model_completion=True))
            elif kind == "text":
                out[label] = core.render(x, m)
            else:
                out[label] = x
        return out

    def num(self, text):
        """The integer a numeral denotes, or None."""
        text = text.strip()
        if text.startswith("(") and text.endswith(")"):
            text = text[1:-1].strip()
        neg = False
        if not core.has_num(text):
            return plain_num(text)
        body, spec_hex = text, False
        if text[:2] in ("0x", "0X"):
            body, spec_hex = text[2:], True
        if len(body) == 1:
            e = core.tok(body)
            if e.kind == "i":
                hexa = e.spec[-1:] in ("x", "X")
                if hexa and spec_hex:
                    self.check(e.v >= 0, "negative number inside 0x literal")
                    return e.v
                if not hexa and not spec_hex and e.spec in ("", "d"):
                    return e.v
                if (
                    not spec_hex
                    and not hexa
                    and re.fullmatch(r"[<>^ ]?[1-9]?\d*d?", e.spec)
                ):
                    return e.v
            elif not spec_hex:
                if core.EXACT_FLOAT.fullmatch(e.spec):
                    return e.v
        return plain_num(core.concretise_str(text))

    def run(self, files, argv):
        global VFS_NOW
        res = self.runner.symbolic_main(files, argv)
        self.results.append(res)
        return res

    def run_any_hash(self, files, argv, policies, deviations):
        """A run in which the sets of up to `deviations` places in the program
        are iterated in any of the given orders."""
        sites = {}
        left = [deviations]

        def order(items):
            f = sys._getframe()
            while f is not None and "/asn1_parser/" not in f.f_code.co_filename:
                f = f.f_back
            site = (
                (f.f_code.co_filename, f.f_lineno) if f is not None else None
            )
            if site not in sites:
                n = len(sites)
                sites[site] = 0
                if left[0] > 0:
                    sites[site] = self.choose("set order %d" % n, policies)
                    left[0] -= sites[site] > 0
            return permute(list(items), sites[site])

        ST.set_order = order
        try:
            return self.run(files, argv)
        finally:
            ST.set_order = None

    def hexbytes(self, b):
        return b


def permute(items, policy):
    """0: as inserted, 1: reversed, 2: rotated, 3..: further permutations."""
    if policy == 0 or len(items) < 2:
        return items
    if policy == 1:
        return items[::-1]
    if policy == 2:
        return items[1:] + items[:1]
    if policy == 3:
        return items[-1:] + items[:-1]
    if policy == 4:
        return items[1::-1] + items[2:]
    return items[:-2] + items[:-3:-1]


def plain_num(text):
    t = text.strip()
    if t.startswith("(") and t.endswith(")"):
        t = t[1:-1].strip()
    if re.fullmatch(r"[-+]?0[xX][0-9a-fA-F]+", t):
        return int(t, 16)
    if re.fullmatch(r"[-+]?\d+", t):
        return int(t)
    try:
        return float(t)
    except ValueError:
        return None


class ConcreteSession(Base):
    def __init__(self, values, execute):
        Base.__init__(self)
        self.v = values
        self.execute = execute
        self.violations = []
        self.inputs = []

    def int(self, label, lo, hi):
        return self.v[label]

    def float(self, label):
        return float.fromhex(self.v[label])

    def bool(self, label):
        return self.v[label]

    def text(self, label, length, alphabet, first=None):
        return self.v[label]

    def name(self, label, length, alphabet="ab1-", capital=False, first=None):
        return self.v[label]

    def choose(self, label, n):
        return self.v[label]

    def assume(self, cond):
        assert cond, "assumption does not hold concretely"

    def lit(self, v):
        if isinstance(v, bool):
            return "TRUE" if v else "FALSE"
        if isinstance(v, float):
            r = repr(v)
            if "e" not in r and "." not in r:
                r += ".0"
            return r
        return str(v)

    def raw(self, v, capital):
        return v

    def check(self, cond, label):
        if not cond:
            self.violations.append(label)
            raise Stop(label)

    def fail(self, label):
        self.check(False, label)

    def num(self, text):
        return plain_num(text)

    def run(self, files, argv):
        res = self.execute(files, argv)
        self.inputs.append((files, argv))
        self.results.append(res)
        return res

    def run_any_hash(self, files, argv, policies, deviations):
        """The run with the hash seed that differs most from the last run."""
        self.inputs.append((files, argv))
        last = self.results[-1]
        for execute in self.execute.seeded[: self.seeds]:
            res = execute(files, argv)
            if res.status != last.status or res.files != last.files:
                break
        self.results.append(res)
        return res


# --------------------------------------------------------------------------
# running the real program
# --------------------------------------------------------------------------


class Real:
    def __init__(self, sock):
        self.sock = sock
        self.seeded = []  # the same with other hash seeds

    def __call__(self, files, argv, timeout=20):
        s = socket.socket(socket.AF_UNIX)
        for attempt in range(50):
            try:
                s.connect(self.sock)
                break
            except (BlockingIOError, ConnectionRefusedError):
                import time

                time.sleep(0.05)
        else:
            raise core.Inconclusive("cannot reach the replay server")
        f = s.makefile("rwb")
        f.write(
            (
                json.dumps({"files": encode_files(files), "argv": argv, "timeout": timeout})
                + "\n"
            ).encode()
        )
        f.flush()
        line = f.readline()
        s.close()
        if not line:
            raise core.Inconclusive("replay server died")
        r = json.loads(line)
        if "error" in r:
            raise core.Inconclusive("replay server: " + r["error"])
        return Result(r["status"], decode_files(r["files"]), r["stdout"])


def encode_files(files):
    return {
        k: {"b64": base64.b64encode(v).decode()} if isinstance(v, bytes) else v
        for k, v in files.items()
    }


def as_bytes(text):
    """The contents of a file of encode_files."""
    if isinstance(text, dict):
        return base64.b64decode(text["b64"])
    return text.encode("utf-8")


def decode_files(files):
    out = {}
    for k, v in sorted(files.items()):
        data = base64.b64decode(v)
        if k.endswith(".bin"):
            out[k] = data
        else:
            try:
                out[k] = data.decode("utf-8")
            except UnicodeDecodeError:
                out[k] = data
    return out


def norm(text):
    if isinstance(text, bytes):
        return text
    return "\n".join(
        " ".join(line.split()) for line in text.splitlines()
    ).strip()


def compare(sym, real, m):
    """Differences between a symbolic result under a model and a real one."""
    ks = "hang" if sym.hang else ("ok" if sym.ok else "reject")
    kr = "hang" if real.hang else ("ok" if real.ok else "reject")
    if ks != kr:
        return "outcome: encoding %s, program %s: %s" % (
            ks + ("" if ks != "reject" else " (%s)" % sym.stdout[-300:]),
            kr,
            real.stdout[-300:],
        )
    a = {}
    for k, v in sym.files.items():
        kk = core.render(k, m)
        a[kk] = (
            core.render(v, m) if isinstance(v, str) else core.render_bytes(v, m)
        )
    if set(a) != set(real.files):
        return "files: encoding %s, program %s" % (
            sorted(a),
            sorted(real.files),
        )
    for k in a:
        if norm(a[k]) != norm(real.files[k]):
            return "content of %s:\n--- encoding\n%s\n--- program\n%s" % (
                k,
                norm(a[k]),
                norm(real.files[k]),
            )
    return None


def frame_depth():
    f, n = sys._getframe(), 0
    while f is not None:
        f, n = f.f_back, n + 1
    return n


class State:
    """What the program keeps in its modules, classes and defaults.

    Every run of the program is a process of its own, so a run of the encoding
    starts from the state after the import."""

    def __init__(self, package):
        self.spaces, self.contents, self.seen = [], [], set()
        for name, mod in list(sys.modules.items()):
            if name == package or name.startswith(package + "."):
                self.space(mod, package)

    def space(self, obj, package):
        if id(obj) in self.seen:
            return
        self.seen.add(id(obj))
        d = {
            k: v
            for k, v in vars(obj).items()
            if not (k.startswith("__") and k.endswith("__"))
        }
        self.spaces.append((obj, d))
        for v in d.values():
            self.value(v, package)

    def value(self, v, package):
        if isinstance(v, (classmethod, staticmethod)):
            v = v.__func__
        t = type(v)
        if t is types.FunctionType:
            for x in v.__defaults__ or ():
                self.value(x, package)
            for x in (v.__kwdefaults__ or {}).values():
                self.value(x, package)
            return
        mod = (getattr(v if t is type else t, "__module__", "") or "")
        own = mod == package or mod.startswith(package + ".")
        if t is list:
            self.content(v, list(v), package)
        elif isinstance(v, dict) and t is not types.MappingProxyType:
            self.content(v, list(dict.items(v)), package)
        elif isinstance(v, set):
            self.content(v, list(v), package)
        elif isinstance(v, type):
            if own:
                self.space(v, package)
        elif own and hasattr(v, "__dict__"):
            self.space(v, package)

    def content(self, v, items, package):
        if id(v) in self.seen:
            return
        self.seen.add(id(v))
        self.contents.append((v, items))
        for x in items:
            if isinstance(v, dict):
                x = x[1]
            self.value(x, package)

    def restore(self):
        for store in rt.CACHES:
            rt._clear(store)
        for obj, d in self.spaces:
            now = vars(obj)
            for k in [
                k
                for k in now
                if k not in d and not (k.startswith("__") and k.endswith("__"))
            ]:
                try:
                    delattr(obj, k)
                except (AttributeError, TypeError):
                    pass
            for k, v in d.items():
                if now.get(k, self) is not v:
                    try:
                        setattr(obj, k, v)
                    except (AttributeError, TypeError):
                        pass
        for v, items in self.contents:
            if isinstance(v, list):
                if len(v) != len(items) or any(
                    a is not b for a, b in zip(v, items)
                ):
                    v[:] = items
            elif isinstance(v, dict):
                now = list(dict.items(v))
                if len(now) != len(items) or any(
                    a[0] is not b[0] or a[1] is not b[1]
                    for a, b in zip(now, items)
                ):
                    v.clear()
                    v.update(items)
            else:
                if list(v) != items:
                    v.clear()
                    v.update(items)


class Runner:
    """Executes main() symbolically, in-process."""

    def __init__(self):
        self.main = None

    def load(self):
        patch_os()
        import asn1_parser.main as m

        hook_textx()
        self.main = m.main
        self.state = State("asn1_parser")

    def symbolic_main(self, files, argv):
        global VFS_NOW
        self.state.restore()
        VFS_NOW = VFS(files)
        old = sys.argv, sys.stdout, sys.stderr
        sys.argv = ["main.py"] + list(argv)
        sys.stdout = sys.stderr = io.StringIO()
        ST.ticks = -20 * sum(len(t) for t in files.values())
        status, msg = 0, ""
        limit = sys.getrecursionlimit()
        sys.setrecursionlimit(frame_depth() + 1000)
        try:
            self.main()
        except SystemExit as e:
            status = (
                e.code if isinstance(e.code, int) else (1 if e.code else 0)
            )
        except core.Hang:
            status = "hang"
        except RecursionError:
            status, msg = 1, "RecursionError"
        except core.EngineSignal:
            raise
        except Exception:
            status, msg = 1, traceback.format_exc()
        finally:
            sys.setrecursionlimit(limit)
            sys.argv, sys.stdout, sys.stderr = old
            vfs, VFS_NOW = VFS_NOW, None
        out = {}
        for k, v in vfs.outputs():
            out[k] = v
        return Result(status, out, msg)
