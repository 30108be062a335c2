"""C16: comments, units and byte order of a field reach its own outputs."""
from symapg import asn, oracle, world
from symapg.asn import H
from symapg.core import land, lor, lnot

GENS = ("cfs", "c", "binary", "cosmos")
HDR = {"cfs": "m_msg.h", "c": "m.h", "binary": "m.h"}

# (endianness mark, unit, text)
PATTERNS = [
    None,
    (False, None, True),
    (False, True, True),
    (False, True, False),
    (True, None, False),
    (True, True, True),
]


class Note:
    def __init__(self, S, label, patterns=PATTERNS):
        p = S.pick("comment of " + label, patterns)
        self.little, self.unit, self.text, self.src = False, "", "", None
        if p is not None:
            self.little = p[0]
            self.unit = "m/s^2" if p[1] else ""
            self.text = "text of %s." % label if p[2] else ""
            self.src = " ".join(
                x
                for x in (
                    "ENDIANNESS(LITTLE)" if p[0] else "",
                    "[%s]" % S.lit(self.unit) if p[1] else "",
                    self.text,
                )
                if x
            )

    def c(self):
        return (("[%s] " % self.unit if self.unit else "") + self.text).strip()


def norm(x):
    return " ".join(x.split())


def check_c_comment(S, comments, note, label):
    got = [norm(c) for c in comments if c.strip()]
    want = [norm(note.c())] if note.c() else []
    S.check(len(got) == len(want), label + ": number of comments")
    for a, b in zip(got, want):
        S.check(S.eq(a, b), label + ": comment text")


def check_item(S, it, note):
    S.check(S.eq(it.comment, note.text), "comment of the item")
    S.check(
        it.endianness == ("LITTLE_ENDIAN" if note.little else None),
        "byte order of the item",
    )
    if note.unit:
        S.check(
            it.units is not None
            and land(S.eq(it.units[0], note.unit), S.eq(it.units[1], note.unit)),
            "unit of the item",
        )
    else:
        S.check(it.units is None, "unit of another item")


def members(gen, n, kind):
    """n members, every combination of comments."""

    def h(S):
        notes = [Note(S, "member %d" % i) for i in range(n)]
        u = S.text("unit", 2, "aZ9%/^")
        for x in notes:
            if x.unit:
                # the first unit is symbolic
                x.src = x.src.replace("m/s^2", S.lit(u))
                x.unit = u
                break
        en = asn.enumerated(S, "E", [("p", None), ("q", None)])
        inner = asn.sequence(S, "In", [asn.member(S, "v", asn.integer(S, 0, 255))])
        typ = {
            "int": lambda i: asn.integer(S, 0, 255 if i % 2 else 7),
            "real": lambda i: asn.real(S, -1.5, 2.5),
            "bool": lambda i: asn.boolean(S),
            "enum": lambda i: asn.ref(S, en),
            "string": lambda i: asn.string(S, 4),
        }
        defs = [inner]
        d = asn.sequence(
            S,
            "Msg",
            [asn.member(S, "f%d" % i, typ[kind](i), comment=x.src) for i, x in enumerate(notes)],
        )
        if kind == "enum":
            defs = [en]
        else:
            defs = []
        r = asn.run(S, gen, [("m", asn.module(S, "m", defs + [d]))], messages=["Msg"])
        S.check(r.ok, "valid comments are rejected")
        S.cover("accepted")
        if gen == "cosmos":
            (p,) = S.cosmos(r)
            S.check(p.comment == "", "comment of the packet")
            S.check(len(p.items) == n, "number of items")
            for it, x in zip(p.items, notes):
                check_item(S, it, x)
            return
        f = S.c(r, HDR[gen])
        st = oracle.find(S, f.decls, "Msg")
        S.check(len(st.members) == n, "number of members")
        S.check(not [c for c in st.comments if c.strip()], "comment of the structure")
        for m, x in zip(st.members, notes):
            check_c_comment(S, m.comments, x, "member")

    return h


def nested(gen):
    """A structure used twice, with fixed values, and its commented members."""

    def h(S):
        a, b, c = [Note(S, "member %s" % x) for x in "abc"]
        inner = asn.sequence(
            S,
            "In",
            [
                asn.member(S, "v", asn.integer(S, 0, 255), comment=a.src),
                asn.member(S, "w", asn.integer(S, 0, 65535)),
            ],
        )
        d = asn.sequence(
            S,
            "Msg",
            [
                asn.member(S, "x", asn.ref(S, inner), wc=[("w", 7)], comment=b.src),
                asn.member(S, "y", asn.integer(S, 0, 3), comment=c.src),
                asn.member(S, "z", asn.ref(S, inner)),
            ],
        )
        r = asn.run(S, gen, [("m", asn.module(S, "m", [inner, d]))], messages=["Msg"])
        S.check(r.ok, "valid comments are rejected")
        S.cover("accepted")
        none = type("None", (), dict(text="", unit="", little=False, c=lambda s: ""))()
        if gen == "cosmos":
            (p,) = S.cosmos(r)
            S.check(len(p.items) == 5, "number of items")
            for it, x in zip(p.items, (a, none, c, a, none)):
                check_item(S, it, x)
            return
        f = S.c(r, HDR[gen])
        ts = [x for x in f.decls if x.kind != "var"]
        st = oracle.find(S, ts, "In")
        for m, x in zip(st.members, (a, none)):
            check_c_comment(S, m.comments, x, "member")
        st = oracle.find(S, ts, "Msg")
        for m, x in zip(st.members, (b, c, none)):
            check_c_comment(S, m.comments, x, "member")

    return h


def others(gen, both):
    """Comments of module, imports, definitions and enumerators."""

    def h(S):
        T = {}
        vary = both or S.pick("vary", ("definitions", "items"))
        for k in ("module", "import", "message", "enum", "inner", "simple"):
            there = vary == "items" or S.flag("comment of " + k)
            T[k] = "doc of the %s" % k if there else None
        pats = PATTERNS if vary != "definitions" else PATTERNS[2:3]
        items = [Note(S, "item %d" % i, pats) for i in range(2)]
        en = asn.enumerated(
            S,
            "E",
            [("p", None, items[0].src), ("q", None, items[1].src)],
            comment=T["enum"],
        )
        inner = asn.sequence(
            S, "In", [asn.member(S, "v", asn.integer(S, 0, 255))], comment=T["inner"]
        )
        simple = asn.simple(S, "Sim", asn.integer(S, 0, 255), comment=T["simple"])
        d = asn.sequence(
            S,
            "Msg",
            [
                asn.member(S, "e", asn.ref(S, en)),
                asn.member(S, "i", asn.ref(S, inner)),
                asn.member(S, "s", asn.ref(S, simple)),
                asn.member(S, "o", asn.ref(S, "Oth")),
            ],
            comment=T["message"],
        )
        oth = asn.sequence(S, "Oth", [asn.member(S, "v", asn.integer(S, 0, 255))])
        mods = [
            ("other", asn.module(S, "other", [oth])),
            (
                "m",
                asn.module(
                    S,
                    "m",
                    [simple, en, inner, d],
                    [(["Oth"], "other")],
                    comment=T["module"],
                    import_comment=T["import"],
                ),
            ),
        ]
        r = asn.run(S, gen, mods, ["m"] if gen == "cosmos" else None, messages=["Msg"])
        S.check(r.ok, "valid comments are rejected")
        S.cover("accepted")
        if gen == "cosmos":
            (p,) = S.cosmos(r)
            S.check(p.comment == (T["message"] or ""), "comment of the packet")
            for it in p.items:
                S.check(it.comment == "" and it.units is None and it.endianness is None, "comment of an item")
            return
        text = S.file(r, HDR[gen])
        f = S.c(r, HDR[gen])
        for k, t in T.items():
            if t is not None and k != "simple":
                S.check(text.count(t) == 1, "comment of the %s" % k)
        body = [norm(x) for x in f.comments]
        if T["module"]:
            S.check(body[0].endswith(T["module"]), "comment of the module")
        else:
            S.check(body[0].endswith("model."), "comment of the module")
        if T["import"]:
            S.check(T["import"] in body, "comment of the imports")
        for k, n in (("message", "Msg"), ("inner", "In"), ("enum", "E")):
            st = oracle.find(S, f.decls, n)
            got = [norm(c) for c in st.comments if "NOTE" not in c]
            S.check(got == ([T[k]] if T[k] else []), "comment of the " + k)
        e = oracle.find(S, f.decls, "E")
        for it, x in zip(e.items, items):
            check_c_comment(S, it.comments, x, "enumerator")
        S.check("doc of" not in (S.file(r, HDR[gen].replace("m", "other", 1)) or ""), "comment in another module")

    return h


PLACES = (
    "member",
    "last member",
    "member with components",
    "component",
    "enumerator",
    "last enumerator",
    "structure",
    "enum",
    "simple",
    "module",
    "import",
    "import item",
)
ALPHA = "abcxyzABCXYZ0129 !#$%&'()*+,-./:;<=>?@[\\]^_\""
BAD = ("[", "]", "--", "*/", '"', "\\")


def contains(S, text, sub):
    n = len(sub)
    return lor(*[S.eq(text[i : i + n], sub) for i in range(len(text) - n + 1)])


def places(gen, lengths, alphabet, where):
    """A comment with any characters, at any place."""

    def h(S):
        place = S.pick("place", where)
        t = "x" + S.text("text", S.pick("length", lengths), alphabet)
        src = "x" + S.lit(t[1:])
        at = lambda p: src if p == place else None
        en = asn.enumerated(
            S,
            "E",
            [("p", None, at("enumerator")), ("q", None, at("last enumerator"))],
            comment=at("enum"),
        )
        simple = asn.simple(S, "Sim", asn.integer(S, 0, 255), comment=at("simple"))
        inner = asn.sequence(
            S,
            "In",
            [
                asn.member(S, "v", asn.integer(S, 0, 255), comment=at("member")),
                asn.member(S, "w", asn.integer(S, 0, 255), comment=at("last member")),
            ],
        )
        d = asn.sequence(
            S,
            "Msg",
            [
                asn.member(S, "i", asn.ref(S, inner), wc=[("v", 1), ("w", 2)], comment=at("member with components")),
                asn.member(S, "e", asn.ref(S, en)),
                asn.member(S, "s", asn.ref(S, simple)),
                asn.member(S, "o", asn.ref(S, "Oth")),
            ],
            comment=at("structure"),
        )
        if place == "component":
            d = type(d)(str(d).replace("v (1),", "v (1), -- " + src), **d.__dict__)
        oth = asn.sequence(S, "Oth", [asn.member(S, "v", asn.integer(S, 0, 255))])
        text = asn.module(
            S, "m", [simple, en, inner, d], [(["Oth"], "other")], comment=at("module"), import_comment=at("import")
        )
        if place == "import item":
            text = text.replace("FROM Module-other", "FROM Module-other -- " + src)
        r = asn.run(
            S,
            gen,
            [("other", asn.module(S, "other", [oth])), ("m", text)],
            ["m"] if gen == "cosmos" else None,
            messages=["Msg"],
        )
        S.check(not r.hang, "does not terminate")
        bad = lor(*[contains(S, t, b) for b in BAD])
        if not r.ok:
            S.check(bad, "valid comment is rejected")
            S.check(len(r.files) == 0, "output in spite of the rejection")
            S.cover("rejected")
            return
        S.check(lnot(bad), "forbidden sign is accepted")
        S.cover("accepted")
        if gen == "cosmos":
            (p,) = S.cosmos(r)
            S.check(len(p.items) == 5, "number of items")
            want = {p_: "" for p_ in ("v", "w")}
            S.check(S.eq(p.comment, t if place == "structure" else ""), "comment of the packet")
            for it, k in zip(p.items, ("member", "last member", "", "", "")):
                S.check(S.eq(it.comment, t if place == k else ""), "comment of the item")
            return
        f = S.c(r, HDR[gen])
        ts = [x for x in f.decls if x.kind != "var"]
        S.check(len(ts) == 3, "number of types")
        st, e, ms = [oracle.find(S, ts, n) for n in ("In", "E", "Msg")]
        S.check(len(st.members) == 2 and len(e.items) == 2 and len(ms.members) == 4, "number of members")
        got = {
            "member": st.members[0].comments,
            "last member": st.members[1].comments,
            "member with components": ms.members[0].comments,
            "enumerator": e.items[0].comments,
            "last enumerator": e.items[1].comments,
            "structure": ms.comments,
            "enum": e.comments,
        }
        want = t.rstrip(" ")
        for k, cs in got.items():
            cs = [c for c in cs if "NOTE" not in c]
            if k != place:
                S.check(not cs, "comment of another element")
            else:
                S.check(len(cs) == 1, "number of comments")
                S.check(S.eq(rstrip(S, cs[0]), rstrip(S, t)), "comment text")

    return h


def rstrip(S, text):
    """Without trailing spaces (a case split over symbolic characters)."""
    while text and S.truth(S.eq(text[-1], " ")):
        text = text[:-1]
    return text


class Given(Note):
    def __init__(self, src):
        self.little, self.unit, self.text = world.note_of(src)
        self.src = src


def large(S, w, r):
    """Comments at most elements of a large bundle."""
    if w.gen == "cosmos":
        for p, role in zip(S.cosmos(r), w.messages):
            d = w.by[role]
            S.check(p.comment == (d.comment or ""), "comment of the packet")
            leaves = oracle.flatten(d)
            S.check(len(p.items) == len(leaves), "number of items")
            for it, x in zip(p.items, leaves):
                check_item(S, it, Given(x.comment))
        return
    for role, m in w.mods.items():
        f = w.hfile(r, role)
        types = [d for d in f.decls if d.kind != "var"]
        body = [norm(x) for x in f.comments]
        S.check(
            body[0].endswith(m.comment or "model."), "comment of the module"
        )
        if m.import_comment:
            S.check(m.import_comment in body, "comment of the imports")
        for d in m.defs:
            if d.kind == "simple":
                continue
            st = oracle.find(S, types, oracle.cname(d.name))
            got = [norm(c) for c in st.comments if "NOTE" not in c]
            S.check(got == ([d.comment] if d.comment else []), "comment of the type")
            if d.kind == "seq":
                for x, (_, _, _, cm) in zip(st.members, d.members):
                    check_c_comment(S, x.comments, Given(cm), "member")
            else:
                notes = {oracle.cname(it[0]): it[2] for it in d.items}
                for x in st.items:
                    check_c_comment(S, x.comments, Given(notes[x.name]), "enumerator")


def harnesses(tier):
    q = tier == "quick"
    out = world.harnesses(GENS, large, comments=True)
    out += world.spoilers(("cfs",), ("comment",), q, "comment with a forbidden sign is accepted")
    out += world.spoilers(("cosmos", "c", "binary"), ("one comment",) if q else ("comment",), q, "comment with a forbidden sign is accepted")
    acc = ("accepted",)
    for g in GENS:
        main = g in ("cfs", "cosmos")
        kinds = ("int", "real", "bool", "enum", "string")
        for k in kinds if main or not q else ("int",):
            n = 2 if q and k != "int" else 3
            out.append(
                H("members-%s-%s" % (k, g), members(g, n, k), "%d members, 6 comment patterns each, any unit of 2 characters" % n, cover=acc)
            )
        out.append(H("nested-" + g, nested(g), "3 commented members around a structure used twice", cover=acc))
        out.append(H("others-" + g, others(g, not q), "every subset of 6 comments, 6 patterns on 2 enumerators", cover=acc))
        ns = (1, 2, 3) if q else (1, 2, 3, 4, 5)
        out.append(
            H(
                "places-" + g,
                places(g, ns, ALPHA, PLACES if main or not q else PLACES[::3]),
                "any comment of up to %d characters (of %d) at every place" % (max(ns) + 1, len(ALPHA)),
                cover=("accepted", "rejected"),
            )
        )
    return out
