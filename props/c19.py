"""C19: rejected input leaves no output behind."""
from symapg import asn, ccsds, oracle, world
from symapg.asn import H, T
from symapg.core import land, lnot, lor

SUF = {"cfs": ("_msg.h", "_msgids.h"), "c": (".h", ".c"), "binary": (".h",)}


class Plan:
    """A valid bundle of two modules; a defect replaces one of its parts."""

    def __init__(self, S):
        self.S = S
        self.lib = dict(
            simple=asn.integer(S, 0, 7),
            member=asn.integer(S, 0, 255),
            real=asn.real(S, -1.0, 1.0),
            name="lib",
            extra=[],
            comment=None,
        )
        self.app = dict(
            simple=asn.integer(S, 0, 9),
            member=asn.integer(S, 0, 100),
            real=asn.real(S, -2.0, 2.0),
            name="app",
            extra=[],
            comment=None,
        )
        self.pos = {"lib": (0, 1), "app": (1, 0)}
        self.used = "Point"
        self.imported = "Point"
        self.source = "lib"
        self.key = "num"
        self.args = ["lib", "app"]
        self.message = "Msg"
        self.edit = {}
        self.value = 5
        self.more = {}

    def definitions(self, w):
        S = self.S
        p = getattr(self, w)
        tag = "" if w == "lib" else "-app"
        small = asn.simple(S, "Small" + tag, p["simple"])
        mode = asn.enumerated(
            S,
            "Mode" + tag,
            [("off" + tag, self.pos[w][0]), ("on" + tag, self.pos[w][1])],
        )
        point = asn.sequence(
            S,
            "Point" + tag,
            [
                asn.member(S, "num", p["member"], comment=p["comment"]),
                asn.member(S, "rl", p["real"]),
                asn.member(S, "sm", asn.ref(S, small)),
                asn.member(S, "md", asn.ref(S, mode)),
            ],
        )
        return [small, mode, point] + p["extra"]

    def modules(self):
        S = self.S
        leaf = asn.sequence(S, "Leaf", [asn.member(S, "num", asn.integer(S, 0, 255))])
        msg = asn.sequence(
            S,
            "Msg",
            [
                asn.member(S, "pay", asn.ref(S, leaf), [(self.key, self.value)]),
                asn.member(S, "where", asn.ref(S, self.used)),
            ],
        )
        lib = asn.module(S, self.lib["name"], self.definitions("lib") + self.more.get("lib", []))
        app = asn.module(
            S,
            self.app["name"],
            [msg, leaf] + self.definitions("app") + self.more.get("app", []),
            [([self.imported], self.source)],
        )
        out = [("lib", lib), ("app", app)]
        return [(n, self.edit.get(n, lambda t: t)(t)) for n, t in out]


def d_range(S, p, w):
    lo, hi = S.int("lo", -100, 100), S.int("hi", -100, 100)
    w[S.pick("part", ("simple", "member"))] = asn.integer(S, lo, hi)
    return hi < lo


def d_real(S, p, w):
    lo, hi = S.float("lo"), S.float("hi")
    w["real"] = asn.real(S, lo, hi)
    return hi < lo


def d_positions(S, p, w):
    a, b = S.int("a", -3, 3), S.int("b", -3, 3)
    p.pos[w["name"]] = (a, b)
    return lnot(
        lor(land(a == 0, b == 0), land(a == 0, b == 1), land(a == 1, b == 0))
    )


def d_standard(S, p, w):
    name, lo, hi = S.pick("type", (("Int8-t", -128, 127), ("Uint16-t", 0, 65535)))
    x, y = S.int("lo", lo - 1, lo + 1), S.int("hi", hi - 1, hi + 1)
    w["extra"] = [asn.simple(S, name, asn.integer(S, x, y))]
    return lnot(land(x == lo, y == hi))


def d_null(S, p, w):
    bad = S.flag("null")
    t = T("NULL", "null") if bad else asn.boolean(S)
    if S.flag("member"):
        w["member"] = t
    else:
        w["extra"] = [asn.simple(S, "Void", t)]
    # the fixed key is in another type, so that the bundle stays valid
    return bad


def d_used(S, p, w):
    p.used = S.name("used", 5, "poinsmadel-t", capital=True)
    return lnot(lor(*[S.eq(p.used, x) for x in ("Point", "Leaf")]))


def d_imported(S, p, w):
    p.imported = S.name("imported", 5, "pointsmal", capital=True)
    # 'Point' is used, so it has to be imported
    return lnot(S.eq(p.imported, "Point"))


def d_source(S, p, w):
    p.source = S.name("source", 3, "liba")
    return lnot(S.eq(p.source, "lib"))


def d_key(S, p, w):
    p.key = S.name("key", 3, "nums")
    return lnot(S.eq(p.key, "num"))


def d_twice(S, p, w):
    n = S.name("again", 4, "leaft-m", capital=True)
    w["extra"] = [
        asn.enumerated(S, n, [("x", None), ("y", None)])
        if S.flag("enum")
        else asn.simple(S, n, asn.integer(S, 0, 3))
    ]
    return S.eq(n, "Leaf")


def d_comment(S, p, w):
    bad = S.flag("bad")
    w["comment"] = "some [text] more" if bad else "some text"
    return bad


def d_args(S, p, w):
    p.args = [S.text("arg %d" % i, 3, "libap") for i in range(2)]
    a, b = p.args
    return lnot(
        lor(
            land(S.eq(a, "lib"), S.eq(b, "app")),
            land(S.eq(a, "app"), S.eq(b, "lib")),
        )
    )


def d_fewer(S, p, w):
    p.args = S.pick("args", (["lib"], ["app"], ["lib", "app", "app"], ["lib", "app", "more"], ["lib", "app", ""]))
    return True


def d_module(S, p, w):
    # COSMOS: the requested module and message
    p.args = [S.text("module", 3, "libap")]
    p.message = S.text("message", 3, "MsgLe")
    return lnot(land(S.eq(p.args[0], "app"), S.eq(p.message, "Msg")))


def d_syntax(S, p, w):
    k, edit = S.pick(
        "edit",
        (
            ("no end", lambda t: t.replace("\nEND", "")),
            ("no begin", lambda t: t.replace("BEGIN", "")),
            ("no comma", lambda t: t.replace("7),", "7)").replace("255),", "255)").replace("100),", "100)")),
            ("second comma", lambda t: t.replace("),\n", "),,\n")),
            ("no brace", lambda t: t.replace("  }", "", 1)),
            ("key twice", lambda t: t.replace("    num ", "    num num ")),
            ("tail", lambda t: t + "more\n"),
            ("empty", lambda t: ""),
            ("keyword", lambda t: t.replace("ENUMERATED", "ENUMERATION")),
            ("range", lambda t: t.replace("(0..", "(0...")),
            ("capital key", lambda t: t.replace("    num ", "    Num ")),
            ("space", lambda t: t.replace("REAL(", "REAL (")),
        ),
    )
    p.edit[w["name"]] = edit
    return True


def d_wide(S, p, w):
    """A range that no 64-bit type holds."""
    top = 1 << 64
    hi = S.int("hi", top - 3, top + 3)
    w["member"] = asn.integer(S, 0, hi)
    return hi >= top


def d_value(S, p, w):
    """binary: a value that its field cannot hold."""
    p.value = S.int("value", -70000, 70000)
    return lnot(land(p.value >= 0, p.value <= 255))


def d_header(S, p, w):
    """cFS: a value that its CCSDS header field cannot hold."""
    key = S.pick("field", tuple(ccsds.WIDTH))
    v = S.int("value", -5000, 5000)
    defs = list(ccsds.header(S))
    cmd = asn.sequence(
        S,
        "Cmd",
        [asn.member(S, "hdr", asn.ref(S, defs[2]), [("primary", [(ccsds.IDENT, [(key, v)])])])],
    )
    p.more[w["name"]] = S.pick("place", (defs + [cmd], [cmd] + defs))
    return lnot(land(v >= 0, v < (1 << ccsds.WIDTH[key])))


def d_messages(S, p, w):
    """COSMOS: one of several requested messages."""
    p.args = ["app"]
    names = ["Msg", "Leaf", "Point-app"]
    i = S.choose("which", 3)
    names[i] = S.text("message", 4, "LeafMsg")
    p.message = names
    return lnot(S.eq(names[i], "Leaf"))


def d_late(S, p, w):
    """COSMOS: one of several messages has no representation."""
    p.args = ["app"]
    top = 1 << 64
    hi = S.int("hi", top - 3, top + 3)
    inner = asn.sequence(S, "Late-in", [asn.member(S, "big", asn.integer(S, 0, hi))])
    late = asn.sequence(S, "Late", [asn.member(S, "num", asn.integer(S, 0, 255)), asn.member(S, "in", asn.ref(S, inner))])
    p.more["app"] = [inner, late]
    names = ["Msg", "Leaf"]
    names.insert(S.choose("which", 3), "Late")
    p.message = names
    return hi >= top


def d_nothing(S, p, w):
    return False


DEFECTS = [
    ("range", d_range),
    ("real", d_real),
    ("positions", d_positions),
    ("standard", d_standard),
    ("null", d_null),
    ("used", d_used),
    ("imported", d_imported),
    ("source", d_source),
    ("key", d_key),
    ("twice", d_twice),
    ("comment", d_comment),
    ("args", d_args),
    ("fewer", d_fewer),
    ("syntax", d_syntax),
    ("nothing", d_nothing),
    ("wide", d_wide),
    ("value", d_value),
    ("header", d_header),
    ("messages", d_messages),
    ("late", d_late),
    ("module", d_module),
]
ONCE = {"used", "imported", "source", "key", "args", "fewer", "module", "nothing", "value", "messages", "late"}
ONLY = {"args": ("cfs", "c", "binary"), "fewer": ("cfs", "c", "binary"), "module": ("cosmos",), "messages": ("cosmos",), "late": ("cosmos",), "value": ("binary",), "header": ("cfs",)}
ALWAYS = {"fewer": ("rejected",), "syntax": ("rejected",), "nothing": ("accepted",)}


def harness(gen, name, defect):
    def h(S):
        p = Plan(S)
        if name in ONCE:
            w = p.app
        else:
            w = S.pick("module", (p.lib, p.app))
        if gen == "cosmos" and name not in ("module", "messages", "late"):
            p.args = ["app"]
        bad = defect(S, p, w)
        if gen == "cosmos" and name == "wide" and w is p.app:
            bad = False  # not part of the requested message
        r = asn.run(
            S,
            gen,
            p.modules(),
            p.args,
            messages=p.message if isinstance(p.message, list) else [p.message],
            order=S.pick("order", ((0, 1), (1, 0))),
            endianness="big-endian",
        )
        S.check(not r.hang, "does not terminate")
        if S.truth(bad):
            S.check(r.rejected, "defective input is accepted")
            S.check(len(r.files) == 0, "output files of rejected input")
            S.cover("rejected")
            return
        S.check(r.ok, "valid input is rejected")
        if gen == "cosmos":
            want = ["tgt.txt"]
        else:
            want = [m + s for m in ("lib", "app") for s in SUF[gen]]
            if gen == "binary":
                want.append("msg.bin")
        S.check(len(r.files) == len(want), "number of output files")
        for x in want:
            t = S.file(r, x)
            S.check(t is not None, "missing output file")
            S.check(len(t) > 0, "empty output file")
        S.cover("accepted")

    return h


def missing(gen):
    """An input file that does not exist."""

    def h(S):
        p = Plan(S)
        mods = p.modules()
        files = {"in/%s.asn" % n: t for n, t in mods}
        gone = S.pick("missing", ("in/lib.asn", "in/app.asn", "in/more.asn"))
        paths = ["in/lib.asn", "in/app.asn"]
        if gone == "in/more.asn":
            paths.insert(S.choose("where", 3), gone)
        else:
            del files[gone]
        if S.flag("reverse"):
            paths.reverse()
        argv = asn.cmd(
            S, gen, paths, ["app"] if gen == "cosmos" else ["lib", "app"], messages=["Msg"]
        )
        r = S.run(files, argv)
        S.check(r.rejected, "missing input file is accepted")
        S.check(len(r.files) == 0, "output files of rejected input")
        S.cover("rejected")

    return h


def expected(w):
    """The output files of a bundle."""
    if w.gen == "cosmos":
        return ["tgt.txt"]
    out = [oracle.cname(m) + s for m in w.md.values() for s in SUF[w.gen]]
    if w.gen == "binary":
        out += [oracle.cname(w.by[x].name[0].lower() + w.by[x].name[1:]) + ".bin" for x in w.images]
    return out


def complete(S, w, r):
    want = expected(w)
    S.check(len(r.files) == len(want), "number of output files")
    for x in want:
        t = S.file(r, x)
        S.check(t is not None, "missing output file")
        S.check(len(t) > 0, "empty output file")


def anywhere(gen, kind):
    """One reference of a large bundle names something else."""
    count = world.count_sites(gen)

    def h(S):
        if kind not in count:
            return
        mut, st = world.mutation(S, [kind], count, "other")
        w = world.World(S, gen, "plain", mut=mut)
        r = w.run()
        old, new = st["changed"]
        if S.truth(S.eq(old, new)):
            S.check(r.ok, "valid input is rejected")
            complete(S, w, r)
            S.cover("accepted")
            return
        S.check(r.rejected, "defective input is accepted")
        S.check(len(r.files) == 0, "output files of rejected input")
        S.cover("rejected")

    return h


def harnesses(tier):
    q = tier == "quick"
    out = world.harnesses(("cfs", "c", "binary", "cosmos"), complete)
    for g in ("cfs", "c", "binary", "cosmos"):
        for name, d in DEFECTS:
            if g not in ONLY.get(name, (g,)):
                continue
            out.append(
                H(
                    "%s-%s" % (name, g),
                    harness(g, name, d),
                    "defect '%s' in either of two modules, both file orders" % name,
                    cover=ALWAYS.get(name, ("accepted", "rejected")),
                )
            )
        out += world.spoilers((g,), ("range", "real", "null", "position", "one comment"), q)
        for k in ("type", "import", "import module", "key"):
            out.append(
                H("anywhere-%s-%s" % (k.replace(" ", "-"), g), anywhere(g, k), "any %s reference of a bundle of four modules with another last letter" % k, cover=("accepted", "rejected"))
            )
        out.append(H("missing-" + g, missing(g), "an input file is missing", cover=("rejected",)))
    return out
