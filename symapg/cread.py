"""Readers of the generated artefacts (they tolerate symbolic characters)."""
import re

PUA = "\U000f0000-\U0010fffd"
W = "[A-Za-z0-9_%s]" % PUA
_TOK = re.compile(
    r"(?P<nl>\n)|(?P<ws>[ \t\r]+)|(?P<lc>//[^\n]*)|(?P<bc>/\*.*?\*/)"
    r"|(?P<pp>\#[^\n]*)|(?P<num>-?\d+\.\d+(?:[eE][-+]?\d+)?|-?\d+[eE][-+]?\d+|-\d+)"
    r"|(?P<id>%s+)|(?P<p>.)" % W,
    re.S,
)


class Bad(Exception):
    """The artefact is not in the expected language."""


class Tok:
    __slots__ = ("k", "t", "own", "line", "end")

    def __init__(self, k, t, own, line, end):
        self.k, self.t, self.own = k, t, own
        self.line, self.end = line, end

    def __repr__(self):
        return "%s:%r" % (self.k, self.t)


def tokens(text):
    out, own, end = [], True, 0
    for m in _TOK.finditer(text):
        k, t = m.lastgroup, m.group(0)
        line, end = end, end + t.count("\n")
        if k == "nl":
            own = True
            continue
        if k == "ws":
            continue
        if k == "lc":
            out.append(Tok("c", t[2:].strip(), own, line, end))
        elif k == "bc":
            out.append(Tok("c", t[2:-2].strip(), own, line, end))
        elif k == "pp":
            out.append(Tok("pp", t, own, line, end))
        else:
            out.append(Tok("id" if k in ("id", "num") else "p", t, own, line, end))
        own = False
    return out


class Node:
    def __init__(self, **k):
        self.__dict__.update(k)

    def __repr__(self):
        return repr(self.__dict__)


class CFile:
    def __init__(self):
        self.includes = []  # (name, is system)
        self.defines = []  # (name, value)
        self.guard = None
        self.decls = []
        self.comments = []  # free comments, in order
        self.layout = []  # order of includes and declarations

    def structs(self):
        return [d for d in self.decls if d.kind == "struct"]

    def enums(self):
        return [d for d in self.decls if d.kind == "enum"]

    def vars(self):
        return [d for d in self.decls if d.kind == "var"]


class Reader:
    def __init__(self, text):
        self.toks = tokens(text)
        self.i = 0
        self.pend = []
        self.free = []

    def peek(self):
        while self.i < len(self.toks) and self.toks[self.i].k == "c":
            self.pend.append(self.toks[self.i])
            self.i += 1
        return self.toks[self.i] if self.i < len(self.toks) else None

    def next(self, want=None):
        t = self.peek()
        if t is None:
            raise Bad("unexpected end")
        if want is not None and t.t != want:
            raise Bad("expected %r, got %r" % (want, t.t))
        self.i += 1
        return t.t

    def at(self, s):
        t = self.peek()
        return t is not None and t.t == s

    def ident(self):
        t = self.peek()
        if t is None or t.k != "id":
            raise Bad("expected a name, got %r" % (t and t.t))
        self.i += 1
        return t.t

    def take(self):
        p, self.pend = self.pend, []
        return [c.t for c in p]

    def take_adjacent(self):
        """The comments right before the next token; earlier ones, separated
        by an empty line, belong to the file."""
        p, self.pend = self.pend, []
        line = self.peek().line
        own = []
        while p and p[-1].end >= line - 1:
            c = p.pop()
            line = c.line
            own.insert(0, c.t)
        self.free.extend(c.t for c in p)
        return own

    def attribute(self):
        if self.at("__attribute__"):
            self.next()
            self.next("(")
            self.next("(")
            a = self.ident()
            self.next(")")
            self.next(")")
            return a
        return None

    def trailing(self):
        """Comments on the same line as what was just read."""
        out = []
        while (
            self.i < len(self.toks)
            and self.toks[self.i].k == "c"
            and not self.toks[self.i].own
        ):
            out.append(self.toks[self.i].t)
            self.i += 1
        return out

    def file(self):
        f = CFile()
        pp = 0
        while True:
            t = self.peek()
            if t is None:
                f.comments.extend(self.take())
                break
            if t.k == "pp":
                f.comments.extend(self.take())
                self.i += 1
                self.trailing()
                m = re.match(r"#\s*(\w+)\s*(.*?)\s*(//.*|/\*.*)?$", t.t)
                if not m:
                    raise Bad(t.t)
                d, arg = m.group(1), m.group(2)
                if d == "include":
                    q = re.fullmatch(r'"([^"]*)"|<([^>]*)>', arg)
                    if not q:
                        raise Bad("include " + arg)
                    name = q.group(1) if q.group(1) is not None else q.group(2)
                    f.includes.append((name, q.group(1) is None))
                    f.layout.append(("include", name))
                elif d == "ifndef":
                    if f.guard is not None or pp or f.decls:
                        raise Bad("unexpected #ifndef")
                    f.guard = arg
                    pp += 1
                elif d == "define":
                    if f.guard is not None and arg == f.guard and pp == 1:
                        pp = 2
                        continue
                    mm = re.match(r"(%s+)\s*(.*)$" % W, arg)
                    if not mm:
                        raise Bad("define " + arg)
                    f.defines.append((mm.group(1), mm.group(2)))
                elif d == "endif":
                    if pp != 2:
                        raise Bad("guard is not closed properly")
                    pp = 3
                else:
                    raise Bad("directive " + d)
                continue
            if pp == 3:
                raise Bad("text after the include guard")
            d = self.decl()
            f.comments.extend(self.free)
            self.free = []
            f.decls.append(d)
            f.layout.append((d.kind, d.name))
        if pp not in (0, 3):
            raise Bad("unterminated include guard")
        f.guarded = pp == 3
        return f

    def decl(self):
        self.peek()
        comments = self.take_adjacent()
        if self.at("typedef"):
            self.next()
            kind = self.ident()
            if kind == "enum":
                return self.enum(comments)
            if kind == "struct":
                return self.struct(comments)
            raise Bad("typedef " + kind)
        words = [self.ident()]
        while not (self.at(";") or self.at("=")):
            words.append(self.ident())
        if len(words) < 2:
            raise Bad("declaration of %r" % words)
        init = None
        if self.at("="):
            self.next()
            init = self.init()
        self.next(";")
        self.trailing()
        return Node(
            kind="var",
            ctype=" ".join(words[:-1]),
            name=words[-1],
            init=init,
            comments=comments,
        )

    def init(self):
        if self.at("{"):
            self.next()
            out = []
            while not self.at("}"):
                self.next(".")
                name = self.ident()
                self.next("=")
                out.append((name, self.init()))
                if self.at(","):
                    self.next()
                elif not self.at("}"):
                    raise Bad("initialiser")
            self.next("}")
            return out
        t = self.next()
        if t == "(":
            t = self.next()
            self.next(")")
        if t == "-":
            t += self.next()
        return t

    def enum(self, comments):
        self.next("{")
        items, val = [], None
        while not self.at("}"):
            name = self.ident()
            c = self.take()
            v = None
            if self.at("="):
                self.next()
                v = self.next()
                if v == "-":
                    v += self.next()
            if self.at(","):
                self.next()
            elif not self.at("}"):
                raise Bad("enumerator")
            c += self.trailing()
            items.append(Node(name=name, value=v, comments=c))
        inner = self.take()
        self.next("}")
        packed = self.attribute()
        name = self.ident()
        packed = packed or self.attribute()
        self.next(";")
        self.trailing()
        return Node(
            kind="enum", name=name, items=items, comments=comments, packed=packed
        )

    def struct(self, comments):
        if not self.at("{"):
            self.ident()  # a tag
        self.next("{")
        members = []
        while not self.at("}"):
            self.peek()
            c = self.take()
            words = [self.ident()]
            while not any(self.at(x) for x in (":", "[", ";")):
                words.append(self.ident())
            if len(words) < 2:
                raise Bad("member %r" % words)
            width = array = None
            if self.at(":"):
                self.next()
                width = self.ident()
            if self.at("["):
                if width is not None:
                    raise Bad("array of bit-fields")
                self.next()
                array = self.ident()
                self.next("]")
            self.next(";")
            c += self.trailing()
            members.append(
                Node(
                    ctype=" ".join(words[:-1]),
                    name=words[-1],
                    width=width,
                    array=array,
                    comments=c,
                )
            )
        self.take()
        self.next("}")
        packed = self.attribute()
        name = self.ident()
        packed = packed or self.attribute()
        self.next(";")
        self.trailing()
        return Node(
            kind="struct",
            name=name,
            members=members,
            comments=comments,
            packed=packed,
        )


def parse_c(text):
    return Reader(text).file()


# --------------------------------------------------------------------------
# COSMOS telemetry files
# --------------------------------------------------------------------------

_FIELD = re.compile(r'"([^"]*)"|(\S+)')


def fields(line):
    out = []
    for m in _FIELD.finditer(line):
        if m.group(1) is not None:
            out.append(("s", m.group(1)))
        else:
            out.append(("w", m.group(2)))
    return out


def parse_cosmos(text):
    """list of packets."""
    packets, item = [], None
    for line in text.split("\n"):
        s = line.strip()
        if not s or s.startswith("#"):
            continue
        fs = fields(s)
        kw = fs[0][1]
        a = [x[1] for x in fs[1:]]
        kinds = [x[0] for x in fs[1:]]
        if kw == "TELEMETRY":
            if len(a) != 4 or kinds != ["w", "w", "w", "s"]:
                raise Bad("TELEMETRY line")
            item = None
            packets.append(
                Node(
                    target=a[0],
                    name=a[1],
                    endianness=a[2],
                    comment=a[3],
                    items=[],
                )
            )
        elif kw.startswith("APPEND_"):
            if not packets:
                raise Bad("item outside of a packet")
            words = [x for x, k in zip(a, kinds)]
            n = 4 if kw in ("APPEND_ID_ITEM", "APPEND_ARRAY_ITEM") else 3
            if kw not in ("APPEND_ID_ITEM", "APPEND_ARRAY_ITEM", "APPEND_ITEM"):
                raise Bad(kw)
            if kinds[: n + 1] != ["w"] * n + ["s"]:
                raise Bad("item fields of " + kw)
            rest = words[n + 1 :]
            if len(rest) > 1:
                raise Bad("item has extra fields")
            item = Node(
                kind=kw,
                name=words[0],
                bits=words[1],
                type=words[2],
                value=words[3] if kw == "APPEND_ID_ITEM" else None,
                array=words[3] if kw == "APPEND_ARRAY_ITEM" else None,
                comment=words[n],
                endianness=rest[0] if rest else None,
                states=[],
                limits=None,
                units=None,
            )
            packets[-1].items.append(item)
        elif kw == "STATE":
            if item is None or len(a) != 2:
                raise Bad("STATE line")
            item.states.append((a[0], a[1]))
        elif kw == "LIMITS":
            if item is None or len(a) != 7 or item.limits is not None:
                raise Bad("LIMITS line")
            item.limits = a
        elif kw == "UNITS":
            if item is None or len(a) != 2 or item.units is not None:
                raise Bad("UNITS line")
            item.units = a
        else:
            raise Bad("COSMOS keyword " + kw)
    return packets
