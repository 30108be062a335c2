"""A large bundle: every feature at once, under several naming schemes.

The narrow harnesses vary one thing over all its values; this one puts all
features next to each other (deep nesting, four modules, related names, many
members, comments everywhere) with the fixed values and some bounds symbolic."""
import re

from . import asn, ccsds, oracle
from .ccsds import APID, FLAG, IDENT, TYPE, VERSION

LETTERS = "abcdefghijklmnopqrstuvwxyz"
LONG = "long-name-that-goes-on-and-on-" * 3


def _hyphens():
    """Names that are equal without their hyphens."""
    s = "kinds"
    out = []
    for mask in range(1 << (len(s) - 1)):
        out.append(
            "".join(c + ("-" if mask >> i & 1 else "") for i, c in enumerate(s[:-1]))
            + s[-1]
        )
    return out


HYPHENS = _hyphens() + ["".join(x) for x in ("kinda", "k-inda", "ki-nda", "kin-da", "kind-a", "k-i-nda", "k-in-da", "ki-n-da")]


SCHEMES = {
    # how the i-th name of a kind looks
    "plain": lambda i: "nam" + LETTERS[i] + "x",
    "prefix": lambda i: LETTERS[: i + 1],
    "dashes": lambda i: "a" + "-a" * i,
    "suffix": lambda i: "x-" * (25 - i) + "v",
    "long": lambda i: LONG + LETTERS[i],
    "hyphen": lambda i: HYPHENS[i],
    "digits": lambda i: "a%d" % [1, 10, 2, 100, 11, 3, 20, 1000, 21, 4, 5, 6, 7, 8, 9, 12, 13, 14, 15, 16, 17, 18, 19, 22, 23, 24][i],
    "short": lambda i: LETTERS[i],
    # as plain, with a lot of everything
    "big": lambda i: "nam" + LETTERS[i] + "x",
}
SMALL = tuple(x for x in SCHEMES if x != "big")

TYPES = (
    "t1", "t2", "t3", "r1", "r2", "bo", "e1", "e2", "e3", "leaf", "mid",
    "upper", "top", "wide", "m1", "m2", "m3", "far", "raw", "rawsub", "far2",
    "far3",
)
MODULES = ("base", "lib", "m", "tail")
KEYS = ("k0", "k1", "k2", "k3", "k4", "k5", "k6", "k7", "k8", "k9")

# (endianness mark, unit, text)
NOTES = (
    None,
    (False, None, True),
    (False, "V", True),
    (True, None, True),
    (False, "m/s^2", False),
    None,
    (True, "%", True),
)


def words(n, start, end):
    """The text of a comment: short, long, with punctuation."""
    return (
        "%s %d %s." % (start, n, end),
        "%s %d: a, b; (c) = 1.5, 'd' & e? #f! <g> @h ^i _j +k %s." % (start, n, end),
        "%s %d%s %s." % (start, n, " and some more words" * 8, end),
        "%s %d %s" % (start, n, "x" * 300),
    )[n % 11 if n % 11 < 4 else 0]


class Mod:
    def __init__(self, name):
        self.name, self.defs, self.imports = name, [], []
        self.comment = self.import_comment = None


class World:
    """mut(kind, site, name): another name for a reference, or None."""

    def __init__(self, S, gen, scheme, reverse=False, comments=False, mut=None, wc=True):
        self.S, self.gen, self.comments = S, gen, comments
        f = SCHEMES[scheme]
        cap = lambda s: s[0].upper() + s[1:]
        self.ty = {r: cap(f(i)) for i, r in enumerate(TYPES)}
        self.md = {r: f(i) for i, r in enumerate(MODULES)}
        self.key = {r: f(i) for i, r in enumerate(KEYS)}
        self.mut = mut
        self.sites = {}
        self.noted = 0
        self.values = {}
        self.by = {}
        self.mods = {r: Mod(self.md[r]) for r in MODULES}
        self.messages = ["m1", "m2", "m3"]
        self.images = {}
        self.build(wc)
        if scheme == "big":
            self.bulk(wc)
        if reverse:
            for m in self.mods.values():
                m.defs.reverse()
                m.imports.reverse()
        self.finish()

    # ------------------------------------------------------------------
    def name(self, kind, name):
        """One reference to a name; the mutated one differs."""
        i = self.sites[kind] = self.sites.get(kind, 0) + 1
        if self.mut:
            n = self.mut(kind, i - 1, name)
            if n is not None:
                return n
        return name

    def note(self):
        if not self.comments:
            return None
        n = self.noted
        self.noted += 1
        p = NOTES[n % len(NOTES)]
        if p is None:
            return None
        little, unit, text = p
        return " ".join(
            x
            for x in (
                "ENDIANNESS(LITTLE)" if little else "",
                "[%s]" % unit if unit else "",
                words(n, "note", "here") if text else "",
            )
            if x
        )

    def text_note(self):
        if not self.comments:
            return None
        n = self.noted
        self.noted += 1
        return words(n, "doc", "there") if n % 3 else None

    # ------------------------------------------------------------------
    def use(self, role):
        """A reference to a definition."""
        d = self.by[role]
        n = self.name("type", d.name)
        return asn.T(self.S.lit(n), "ref", name=n, target=d)

    def mem(self, k, typ, wc=None):
        return asn.member(self.S, self.key.get(k, k), typ, wc, self.note())

    def put(self, mod, role, d):
        d.module = mod
        self.mods[mod].defs.append(d)
        if role:
            self.by[role] = d
        return d

    def seq(self, mod, role, members):
        name = self.ty.get(role, role)
        return self.put(
            mod, role, asn.sequence(self.S, name, members, self.text_note())
        )

    def simple(self, mod, role, t):
        name = self.ty.get(role, role)
        return self.put(mod, role, asn.simple(self.S, name, t, self.text_note()))

    def enum(self, mod, role, n, pos=None):
        pre = self.ty[role].lower()
        items = [
            ("%s-i%d" % (pre, k), pos[k] if pos else None, self.note())
            for k in range(n)
        ]
        d = self.put(
            mod,
            role,
            asn.enumerated(self.S, self.ty[role], items, self.text_note()),
        )
        if pos:
            d.states = [
                it[0] for _, it in sorted(zip(pos, items), key=lambda x: x[0])
            ]
        else:
            d.states = [it[0] for it in items]
        return d

    def comp(self, pairs):
        """A WITH COMPONENTS list; keys by role."""
        out = asn.Comps()
        for k, v in pairs:
            n = self.name("key", self.key.get(k, k))
            pair = asn.Pair((n, v))
            pair.note = self.note()
            out.append(pair)
        out.note = self.note()
        return out

    def ival(self, label, lo, hi):
        return self.S.int(label, lo, hi)

    # ------------------------------------------------------------------
    def build(self, wc):
        S, gen = self.S, self.gen
        use, mem = self.use, self.mem
        hi = S.int("top of t1", 64, 127)
        n = S.int("array length", 1, 100000)
        ln = S.int("string length", 1, 100000)
        lim = S.float("limit")
        S.assume(lim >= 0.0)
        S.assume(lim <= 1.0e30)
        v = [S.int("value %d" % i, 0, 127) for i in range(4)]
        neg = S.int("value n", -32768, 32767)
        big = S.int("value w", 0, (1 << 32) - 1)
        apid = S.int("apid", 0, 2047)
        flag = S.flag("flag")
        x = S.float("value x")
        S.assume(x >= -1.0e300)
        S.assume(x <= 1.0e300)

        self.simple("base", "t1", asn.integer(S, 0, hi))
        self.simple("base", "t2", asn.integer(S, 5, 60000))
        self.simple("base", "t3", asn.integer(S, -129, 3))
        self.simple("base", "r1", asn.real(S, -2.5, lim))
        self.simple("base", "r2", asn.real(S, -1.0e300, 1.0e300))
        self.simple("base", "bo", asn.boolean(S))
        self.simple("base", "Uint32-t", asn.integer(S, 0, (1 << 32) - 1))
        self.simple("base", "Double", asn.real(S, -1.7976931348623157e308, 1.7976931348623157e308))
        self.enum("base", "e1", 5, [4, 3, 2, 0, 1])
        self.enum("base", "e2", 1)
        self.enum("lib", "e3", 17)
        self.seq(
            "base",
            "leaf",
            [
                mem("k0", use("t1")),
                mem("k1", asn.boolean(S)),
                mem("k2", use("e1")),
                mem("k3", use("r2")),
                mem("k4", use("t3")),
            ],
        )
        self.seq(
            "lib",
            "mid",
            [
                mem("k1", use("leaf")),
                mem("k0", use("t2")),
                mem("k2", use("leaf")),
                mem("k5", asn.array(S, n, use("t2"))),
                mem("k3", use("e3")),
            ],
        )
        self.seq(
            "lib",
            "upper",
            [
                mem("k4", asn.string(S, ln)),
                mem("k0", use("mid")),
                mem("k1", use("bo")),
            ],
        )
        self.seq(
            "m",
            "top",
            [
                mem("k0", use("upper")),
                mem("k1", use("e2")),
                mem("k2", asn.integer(S, 0, 7)),
                mem("k3", use("upper")),
            ],
        )
        self.seq(
            "m",
            "wide",
            [
                mem("k0", asn.integer(S, 0, 1)),
                mem("k1", asn.integer(S, 0, 255)),
                mem("k2", asn.integer(S, 0, 256)),
                mem("k3", asn.integer(S, -1, 0)),
                mem("k4", asn.real(S, -3.4e38, 3.4e38)),
                mem("k5", use("Uint32-t")),
                mem("k6", use("Double")),
                mem("k7", asn.string(S, 7, "NumericString")),
                mem("k8", use("e3")),
                mem("k9", asn.boolean(S)),
                mem("extra-one", use("r1")),
                mem("extra-two", asn.integer(S, 0, (1 << 64) - 1)),
                mem("extra-three", use("t3")),
            ],
        )
        ident = self.put("base", "ident", asn.sequence(S, "Ident", [
            asn.member(S, VERSION, asn.integer(S, 0, 7)),
            asn.member(S, TYPE, asn.boolean(S)),
            asn.member(S, FLAG, asn.boolean(S)),
            asn.member(S, APID, asn.integer(S, 0, 2047)),
        ]))
        self.put("base", "prim", asn.sequence(S, "Prim", [
            asn.member(S, IDENT, use("ident")),
            asn.member(S, "packet-length", asn.integer(S, 0, 65535)),
        ]))
        self.put("base", "hdr", asn.sequence(S, "Hdr", [
            asn.member(S, "primary", use("prim")),
            mem("k0", asn.integer(S, 0, 127)),
            mem("k1", use("leaf")),
        ]))
        fixed = wc and gen != "binary"
        h = l = deep = far = None
        if fixed:
            parts = [
                ("primary", self.comp([(IDENT, self.comp([
                    (VERSION, 5), (APID, apid), (TYPE, flag), (FLAG, True),
                ]))])),
                ("k0", v[0]),
            ]
            if gen != "cfs":
                # cfs: one macro per key, hence every key once
                parts.append(("k1", self.comp([("k0", v[1]), ("k3", x)])))
            h = self.comp(parts)
            # one fixed value for each of several equal sub-structures
            if gen == "cfs":
                deep = self.comp([
                    ("k2", v[2]),
                    ("k3", self.comp([("k0", self.comp([("k2", self.comp([("k4", -5)]))]))])),
                ])
                far = self.comp([("k0", v[3])])
            else:
                deep = self.comp([
                    ("k0", self.comp([("k0", self.comp([
                        ("k2", self.comp([("k4", neg), ("k1", not flag)])),
                        ("k1", self.comp([("k0", v[2])])),
                        ("k0", 4660),
                    ]))])),
                    ("k2", v[3]),
                    ("k3", self.comp([("k0", self.comp([("k2", self.comp([("k0", v[1])]))]))])),
                ])
                far = self.comp([("k0", v[3]), ("k4", -128)])
        self.seq("m", "m1", [
            mem("k0", use("hdr"), h),
            mem("k1", use("wide")),
        ])
        self.seq("m", "m2", [
            mem("k3", asn.integer(S, 0, 3)),
            mem("k0", use("top"), deep),
            mem("k2", use("leaf")),
        ])
        self.seq("m", "m3", [
            mem("k0", use("wide")),
            mem("k1", use("top")),
            mem("k2", use("leaf")),
        ])
        self.seq("tail", "far", [
            mem("k0", use("leaf"), far),
            mem("k1", use("m3")),
            mem("k2", use("t1")),
        ])
        if gen == "binary" and wc:
            self.seq("tail", "rawsub", [
                mem("k0", asn.integer(S, 0, 255)),
                mem("k1", asn.integer(S, -32768, 32767)),
                mem("k2", asn.real(S, -1.0e300, 1.0e300)),
            ])
            self.seq("tail", "raw", [
                mem("k0", use("rawsub")),
                mem("k1", asn.integer(S, 0, (1 << 32) - 1)),
                mem("k2", use("rawsub")),
                mem("k3", asn.integer(S, 0, 3)),
            ])
            self.images = {
                "far2": [("u", 1, v[0]), ("s", 2, neg), ("d", 8, x), ("u", 4, big), ("u", 1, v[1])],
                "far3": [("u", 4, big), ("s", 2, -2)],
            }
            self.seq("tail", "far2", [
                mem("k5", asn.integer(S, 0, 3)),
                mem("k0", use("raw"), self.comp([
                    ("k0", self.comp([("k0", v[0]), ("k1", neg), ("k2", x)])),
                    ("k1", big),
                    ("k2", self.comp([("k0", v[1])])),
                ])),
            ])
            self.seq("tail", "far3", [
                mem("k1", use("raw"), self.comp([
                    ("k1", big),
                    ("k0", self.comp([("k1", -2)])),
                ])),
            ])

    def bulk(self, wc):
        """Deep nesting, long lists, many modules, many messages."""
        S, use, mem = self.S, self.use, self.mem
        v = [S.int("bulk value %d" % i, 0, 127) for i in range(3)]
        self.ty.update({"e4": "Efour", "e5": "Efive"})
        self.enum("base", "e4", 70, list(range(69, -1, -1)))
        self.enum("lib", "e5", 260)
        # a chain of structures through three modules
        depth = 18
        for i in range(depth):
            ms = [mem("k0", use("Deep%d" % (i - 1)) if i else use("t1")), mem("k1", asn.integer(S, 0, 254 + i))]
            if i % 2:
                ms.reverse()
            self.seq("base" if i < 6 else "lib" if i < 12 else "m", "Deep%d" % i, ms)
        fixed = wc and self.gen != "binary"
        comps = None
        if fixed:
            comps = v[0]
            # the parser needs time exponential in the depth of constraints
            for i in range(7):
                comps = self.comp([("k0", comps)])
        self.seq("m", "Mdeep", [
            mem("k5", asn.integer(S, 0, 9)),
            mem("k1", use("Deep6"), comps),
            mem("k0", use("Deep%d" % (depth - 1))),
        ])
        # many members, many imported names
        for i in range(24):
            self.simple("base", "Piece%d" % i, asn.integer(S, -(i % 2), 3 << i))
        kinds = (
            lambda i: use("Piece%d" % (i % 24)),
            lambda i: asn.boolean(S),
            lambda i: use("e5" if i % 2 else "e4"),
            lambda i: asn.integer(S, 0, 1 << i % 63),
            lambda i: asn.string(S, i),
            lambda i: use("r1" if i % 2 else "r2"),
            lambda i: use("Deep2"),
        )
        self.seq("lib", "Many", [
            mem("item-%d" % i, kinds[i * 5 % 7](i)) for i in range(60)
        ])
        inner = None
        if fixed:
            inner = self.comp([
                ("item-%d" % i, v[1] if i == 27 else i % 2)
                for i in range(60)
                if i * 5 % 7 in (0, 2, 3)
            ])
        self.seq("m", "Mmany", [
            mem("k0", use("Many"), inner),
            mem("k1", use("Many")),
        ])
        for i in range(10):
            self.seq("m", "Small%d" % i, [
                mem("k0", use("t1" if i % 3 else "t2")),
                mem("k1", use("leaf"), self.comp([("k0", v[2] if i == 7 else i)]) if fixed else None),
            ])
        # a chain and a fan of modules
        for i in range(8):
            r = "x%d" % i
            self.md[r] = "mod-x%d" % i
            self.mods[r] = Mod(self.md[r])
            ms = [mem("k0", use("Link%d" % (i - 1)) if i else use("leaf"))]
            if i > 2:
                ms.append(mem("k1", use("Link%d" % (i - 3))))
            ms.append(mem("k2", use("t2")))
            self.seq(r, "Link%d" % i, ms)
        if self.gen == "binary" and wc:
            n = 7
            for i in range(n):
                self.seq("tail", "Flat%d" % i, [
                    mem("k0", use("Flat%d" % (i - 1)) if i else asn.integer(S, 0, 255)),
                    mem("k1", asn.integer(S, 0, 65535)),
                ])
            self.seq("tail", "Long", [
                mem("item-%d" % i, asn.integer(S, -(i % 2), 200 if i % 2 else 255))
                for i in range(50)
            ])
            image = [("u", 1, v[0])]
            comps = self.comp([("k0", v[0])])
            for i in range(1, n):
                comps = self.comp([("k0", comps), ("k1", 1000 + i)])
                image.append(("u", 2, 1000 + i))
            self.seq("tail", "Imgdeep", [mem("k0", use("Flat%d" % (n - 1)), comps)])
            self.images["Imgdeep"] = image
            self.seq("tail", "Imglong", [
                mem("k0", use("Long"), [("item-%d" % i, v[1] if i == 40 else i) for i in range(50)]),
            ])
            self.images["Imglong"] = [
                ("s", 2, v[1] if i == 40 else i) if i % 2 else ("u", 1, v[1] if i == 40 else i)
                for i in range(50)
            ]
        self.messages = ["m1", "m2", "m3", "Mdeep", "Mmany"] + ["Small%d" % i for i in range(10)]

    # ------------------------------------------------------------------
    def finish(self):
        """Imports of exactly what is used."""
        S = self.S
        for r in self.mods:
            m = self.mods[r]
            want = {}
            for d in m.defs:
                if d.kind != "seq":
                    continue
                for _, t, _, _ in d.members:
                    if t.kind == "array":
                        t = t.elem
                    if t.kind == "ref" and t.target.module != r:
                        want.setdefault(t.target.module, [])
                        if t.target not in want[t.target.module]:
                            want[t.target.module].append(t.target)
            m.uses = want
            m.imports = []
            for src in self.mods:
                if src in want:
                    names = asn.Comps(self.name("import", d.name) for d in want[src])
                    names.note = self.text_note()
                    m.imports.append((names, self.name("import module", self.md[src])))
            m.comment = self.text_note()
            m.import_comment = self.text_note() if m.imports else None
            m.text = asn.module(
                S, m.name, m.defs, m.imports, m.comment, m.import_comment
            )

    def files(self, order=None):
        out = [(m.name, m.text) for m in self.mods.values()]
        return [out[i] for i in order] if order else out

    def run(self, names=None, order=None, messages=None, gen=None, endianness="big-endian"):
        gen = gen or self.gen
        if names is None:
            names = [self.md["m"]] if gen == "cosmos" else list(self.md.values())
        if messages is None:
            messages = [self.by[r].name for r in self.messages]
        return asn.run(
            self.S, gen, self.files(), names, order=order,
            messages=messages, endianness=endianness,
        )

    def hfile(self, r, role):
        suf = "_msg.h" if self.gen == "cfs" else ".h"
        return self.S.c(r, oracle.cname(self.md[role]) + suf)

    def check_types(self, r):
        """Every type of every module, completely."""
        S = self.S
        for role, m in self.mods.items():
            f = self.hfile(r, role)
            types = [d for d in f.decls if d.kind != "var"]
            want = [d for d in m.defs if d.kind in ("seq", "enum")]
            S.check(len(types) == len(want), "number of types")
            for d in want:
                if d.kind == "seq":
                    oracle.check_struct(S, f_types(f, types), d)
                else:
                    self.check_enum(f_types(f, types), d)

    def check_enum(self, f, d):
        S = self.S
        e = oracle.check_enum(S, f, d)
        S.check(len(e.items) == len(d.states), "number of enumerators")
        for k, (it, n) in enumerate(zip(e.items, d.states)):
            S.check(S.eq(it.name, oracle.cname(n)), "enumerator name or order")
            S.check(S.intval(it.value, "enumerator value") == k, "enumerator value")

    def check_packets(self, r, roles=None):
        S = self.S
        roles = self.messages if roles is None else roles
        ps = S.cosmos(r)
        S.check(len(ps) == len(roles), "number of packets")
        for p, role in zip(ps, roles):
            oracle.check_packet(S, p, self.by[role])
        return ps


def note_of(src):
    """(little endian, unit, text) of a comment."""
    little = unit = text = None
    rest = src or ""
    if rest.startswith("ENDIANNESS(LITTLE)"):
        little, rest = True, rest[len("ENDIANNESS(LITTLE)") :].strip()
    if rest.startswith("["):
        unit, rest = rest[1:].split("]", 1)
    return bool(little), unit or "", rest.strip()


FORMS = ("shorter", "longer", "other")
# (scheme, change of the name, reverse): what the quick tier looks at
FEW = (
    ("dashes", "shorter", False),
    ("suffix", "longer", True),
    ("plain", "other", False),
)


def variants(quick, few=FEW):
    return few if quick else tuple(
        (s, f, r) for s in sorted(SMALL) for f in FORMS for r in (False, True)
    )


def mutation(S, kinds, count, form):
    """One reference under another name: (hook, was it changed)."""
    kind = S.pick("kind of name", kinds)
    site = S.choose("site of a " + kind, count[kind])
    st = {"changed": None}

    def mut(k, i, name):
        if k != kind or i != site:
            return None
        if form == "shorter":
            new = name[:-1].rstrip("-")
            if not new:
                new = name + "q"
        elif form == "longer":
            new = name + "q"
        else:
            # any last letter
            new = name[:-1] + S.name("last letter", 1, name[-1] + "jqz") if name[-1].isalpha() and len(name) > 1 else name + "q"
        st["changed"] = (name, new)
        return new

    return mut, st


def count_sites(gen, scheme="plain"):
    class Dummy:
        def __getattr__(self, n):
            if n in ("int", "float"):
                return lambda *a: 64
            if n in ("flag",):
                return lambda *a: True
            if n == "lit":
                return lambda v: str(v)
            return lambda *a: None

    return dict(World(Dummy(), gen, scheme).sites)


# --------------------------------------------------------------------------
# a defect at any place of the bundle
# --------------------------------------------------------------------------

INTEGER = re.compile(r"INTEGER\((-?\d+)\.\.(-?\d+)\)")
REAL = re.compile(r"REAL\((-?[\d.e+]+) \.\. (-?[\d.e+]+)\)")
NULLABLE = re.compile(r"INTEGER\([^)]*\)|BOOLEAN|REAL\([^)]*\)")
POSITION = re.compile(r"(?<=-i\d) \((\d)\)|(?<=-i\d)(?=[,\n])|(?<=-i\d\d)(?=[,\n])")
COMMENT = re.compile(r" -- .*$", re.M)
SIGNS = ("[", "]", "--", "*/", '"', "\\")


def _range(S, m):
    lo = int(m.group(1))
    hi = S.int("upper bound", lo - 1000, lo + 1000)
    S.assume(hi < lo)
    return "INTEGER(%d..%s)" % (lo, S.lit(hi))


def _real(S, m):
    hi = S.float("upper bound")
    S.assume(hi < float(m.group(1)))
    return "REAL(%s .. %s)" % (m.group(1), S.lit(hi))


def _position(S, m):
    old = int(m.group(1) or 0)
    new = S.int("position", -300, 300)
    S.assume(new != old)
    return " (%s)" % S.lit(new)


DEFECTS = {
    "range": (INTEGER, _range),
    "real": (REAL, _real),
    "null": (NULLABLE, lambda S, m: "NULL"),
    "position": (POSITION, _position),
    "comment": (
        COMMENT,
        lambda S, m: m.group() + " or " + S.pick("sign", SIGNS) + " so",
    ),
    # as "comment", another sign at each place
    "one comment": (
        COMMENT,
        lambda S, m: m.group() + " or " + SIGNS[m.start() % len(SIGNS)] + " so",
    ),
}


def spoil(S, w, kind):
    """One defect of the kind, at any place of the bundle."""
    rx, new = DEFECTS[kind]
    sites = [
        (mod, m)
        for mod in w.mods.values()
        for m in rx.finditer(mod.text)
        if not m.group().startswith("REAL(-1.797")  # nothing lies below
    ]
    mod, m = S.pick("place", sites)
    mod.text = mod.text[: m.start()] + new(S, m) + mod.text[m.end() :]


def spoiled(gen, kind, schemes=("plain",), label="defective input is accepted"):
    def h(S):
        scheme = S.pick("names", schemes)
        w = World(S, gen, scheme, len(schemes) > 1 and S.flag("reverse"), comments="comment" in kind)
        spoil(S, w, kind)
        r = w.run()
        S.check(not r.hang, "does not terminate")
        S.check(r.rejected, label)
        S.check(len(r.files) == 0, "output files of rejected input")
        S.cover("rejected")

    return h


WHAT = {
    "range": "an INTEGER whose end is below its begin",
    "real": "a REAL whose end is below its begin",
    "null": "NULL instead of a type",
    "position": "an impossible position",
    "comment": "a comment with a forbidden sign",
    "one comment": "a comment with a forbidden sign",
}


def spoilers(gens, kinds, q, label="defective input is accepted"):
    return [
        asn.H(
            "spoiled-%s-%s" % (k.replace(" ", "-"), g),
            spoiled(g, k, ("plain",) if q else SMALL, label),
            WHAT[k] + " at any place of a bundle of four modules",
            cover=("rejected",),
        )
        for g in gens
        for k in kinds
    ]


class f_types:
    """A file without its variables."""

    def __init__(self, f, types):
        self.decls = types


def pick(S, tier, schemes=None):
    """The structural choices of a path."""
    names = list(schemes or SCHEMES)
    return S.pick("names", names), S.flag("definitions in reverse")


def harness(gen, judge, comments=False, schemes=None, **k):
    """judge(S, w, r): w the world, r the result of its run."""

    def h(S):
        scheme, rev = pick(S, None, schemes)
        w = World(S, gen, scheme, rev, comments, **k)
        r = w.run()
        S.check(r.ok, "valid bundle is rejected")
        S.cover(scheme)
        judge(S, w, r)

    return h


BOUNDS = (
    "four modules with 18 to 24 definitions, nesting depth 6 (once: 12 modules,"
    " 110 definitions, depth 20, 60 members, 260 enumerators), %d naming"
    " schemes, two orders of the definitions, fixed values, lengths and some"
    " bounds symbolic"
)


def harnesses(gens, judge, comments=False, schemes=None, **k):
    names = tuple(schemes or SCHEMES)
    return [
        asn.H(
            "world-" + g,
            harness(g, judge, comments, schemes, **k),
            BOUNDS % len(names),
            cover=names,
        )
        for g in gens
    ]
