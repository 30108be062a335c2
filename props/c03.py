"""C03: the C structure and the COSMOS packet describe the same layout."""
from symapg import asn, oracle, world
from symapg.asn import H

FILES = {"cfs": "m_msg.h", "c": "m.h", "binary": "m.h"}
BASE = {"cfs": "base_msg.h", "c": "base.h", "binary": "base.h"}

KINDS = (
    "uint", "sint", "bool", "enum", "real", "string", "seq", "imported-seq",
    "simple", "imported-simple", "array", "imported-enum", "deep", "simple-bool",
    "simple-real",
)


class World:
    """Definitions the members refer to."""

    def __init__(self, S):
        self.S = S
        self.local, self.base, self.imports = [], [], []

    def make(self, S, kind, i):
        n = str(i)
        if kind == "uint":
            lo, hi = S.int("lo" + n, 0, 300), S.int("hi" + n, 0, 300)
            S.assume(lo <= hi)
            return asn.integer(S, lo, hi)
        if kind == "sint":
            lo, hi = S.int("lo" + n, -200, -1), S.int("hi" + n, -200, 200)
            S.assume(lo <= hi)
            return asn.integer(S, lo, hi)
        if kind == "bool":
            return asn.boolean(S)
        if kind == "real":
            lo, hi = S.float("lo" + n), S.float("hi" + n)
            S.assume(lo <= hi)
            return asn.real(S, lo, hi)
        if kind == "string":
            return asn.string(
                S,
                S.int("len" + n, 1, 1 << 20),
                "IA5String" if i % 2 else "NumericString",
            )
        if kind in ("simple", "imported-simple"):
            hi = S.int("hi" + n, 0, 600)
            d = asn.simple(S, "Sd%s" % n, asn.integer(S, 0, hi))
            return self.put(d, kind.startswith("imp"))
        if kind == "simple-bool":
            return self.put(asn.simple(S, "Sd%s" % n, asn.boolean()), False)
        if kind == "simple-real":
            hi = S.float("hi" + n)
            S.assume(hi >= 0.0)
            return self.put(
                asn.simple(S, "Sd%s" % n, asn.real(S, 0.0, hi)), False
            )
        if kind in ("enum", "imported-enum"):
            size = S.pick("n" + n, [1, 2, 3, 5])
            d = asn.enumerated(
                S, "En%s" % n, [("it%d-e%s" % (k, n), None) for k in range(size)]
            )
            return self.put(d, kind.startswith("imp"))
        if kind == "array":
            hi = S.pick("elem" + n, [255, 65535, (1 << 32) - 1])
            d = asn.simple(S, "El%s" % n, asn.integer(S, 0, hi))
            self.put(d, False)
            return asn.array(S, S.int("len" + n, 1, 1 << 20), asn.ref(S, d))
        inner = asn.sequence(
            S,
            "In%s" % n,
            [
                asn.member(S, "flag-one", asn.boolean(S)),
                asn.member(
                    S, "cnt", asn.integer(S, 0, S.int("ihi" + n, 0, 300))
                ),
                asn.member(S, "txt", asn.string(S, S.int("txt" + n, 1, 1 << 20))),
            ],
        )
        if kind == "seq":
            return self.put(inner, False)
        if kind == "imported-seq":
            return self.put(inner, True)
        self.put(inner, True)
        mid = asn.sequence(
            S,
            "Mid%s" % n,
            [
                asn.member(S, "sub", asn.ref(S, inner)),
                asn.member(S, "tail", asn.boolean(S)),
                asn.member(S, "sub-two", asn.ref(S, inner)),
            ],
        )
        return self.put(mid, False)

    def put(self, d, imported):
        if imported:
            self.base.append(d)
            self.imports.append(d)
        else:
            self.local.append(d)
        return asn.ref(self.S, d)

    def modules(self, seq):
        S = self.S
        mods = []
        if self.base:
            mods.append(("base", asn.module(S, "base", self.base)))
        mods.append(
            (
                "m",
                asn.module(
                    S,
                    "m",
                    self.local + [seq],
                    [(self.imports, "base")] if self.imports else [],
                ),
            )
        )
        return mods


def harness(first, others, gen):
    def h(S):
        w = World(S)
        kinds = [S.pick("kind%d" % i, k) for i, k in enumerate([first] + others)]
        members = []
        for i, k in enumerate(kinds):
            members.append(asn.member(S, "mem-%d" % i, w.make(S, k, i)))
        seq = asn.sequence(S, "Msg-x", members)
        mods = w.modules(seq)
        g = S.pick("gen", gen)
        r = asn.run(S, g, mods)
        S.check(r.ok, "C generation fails")
        fm = S.c(r, FILES[g])
        oracle.check_struct(S, fm, seq)
        for d in w.local:
            if d.kind == "seq":
                oracle.check_struct(S, fm, d)
        if w.base:
            fb = S.c(r, BASE[g])
            for d in w.base:
                if d.kind == "seq":
                    oracle.check_struct(S, fb, d)
        q = asn.run(S, "cosmos", mods, ["m"], messages=["Msg-x"])
        S.check(q.ok, "COSMOS generation fails")
        ps = S.cosmos(q)
        S.check(len(ps) == 1, "one packet")
        oracle.check_packet(S, ps[0], seq)
        for k in kinds:
            S.cover(k)

    return h


def arrays(elems, gens, most=300):
    """One array between two other members."""

    def h(S):
        w = World(S)
        kind = S.pick("elem", elems)
        where = kind != "bool" and kind != "string" and S.flag("imported")
        n = S.int("len", 1, most)
        if kind == "string":
            e = asn.string(S, 3)
        elif kind == "bool":
            e = asn.boolean(S)
        elif kind == "int":
            lo = S.int("lo", -(1 << 34), 1 << 34)
            hi = S.int("hi", -(1 << 34), 1 << 34)
            S.assume(lo <= hi)
            e = w.put(asn.simple(S, "El", asn.integer(S, lo, hi)), where)
        elif kind == "real":
            lo, hi = S.float("lo"), S.float("hi")
            S.assume(lo <= hi)
            e = w.put(asn.simple(S, "El", asn.real(S, lo, hi)), where)
        elif kind == "enum":
            size = S.pick("n", [1, 2, 3, 128, 129, 256, 257])
            e = w.put(
                asn.enumerated(
                    S, "El", [("it%d" % k, None) for k in range(size)]
                ),
                where,
            )
        else:
            e = w.put(
                asn.sequence(
                    S,
                    "El",
                    [
                        asn.member(S, "one", asn.integer(S, 0, 5)),
                        asn.member(S, "two", asn.string(S, 2)),
                    ],
                ),
                where,
            )
        arr = asn.array(S, n, e)
        seq = asn.sequence(
            S,
            "Msg-x",
            [
                asn.member(S, "before", asn.integer(S, 0, 5)),
                asn.member(S, "arr-x", arr),
                asn.member(S, "after", asn.boolean(S)),
            ],
        )
        mods = w.modules(seq)
        q = asn.run(S, "cosmos", mods, ["m"], messages=["Msg-x"])
        ps = S.cosmos(q) if q.ok else []
        g = S.pick("gen", gens)
        r = asn.run(S, g, mods)
        S.check(r.ok, "C generation fails")
        S.cover(kind)
        if kind == "string":
            # an array of strings has no COSMOS item; it is refused there
            S.check(not q.ok, "COSMOS item for an array of strings")
        elif kind != "seq":
            S.check(len(ps) == 1, "one packet")
            oracle.check_packet(S, ps[0], seq)
        st = S.c(r, FILES[g])
        st = oracle.find(S, st.decls, "Msg_x")
        S.check(st.kind == "struct" and st.packed == "packed", "packed struct")
        S.check(len(st.members) == 3, "number of members")
        for i in (0, 2):
            key, t, _, _ = seq.members[i]
            oracle.check_member(S, st.members[i], key, t)
        m = st.members[1]
        if kind in ("int", "real"):
            oracle.check_member(S, m, "arr-x", arr)
            return
        S.check(S.eq(m.name, "arr_x"), "member name or order")
        S.check(m.array is not None, "array member is not an array")
        S.check(S.intval(m.array, "array length") == n, "array length")
        if kind == "enum":
            S.check(m.ctype == "El" and m.width is None, "element type")
            have = 8 if size <= 256 else 16
            S.check(
                have == oracle.bits(size - 1),
                "C and COSMOS elements of an ENUMERATED array differ in size",
            )
        elif kind == "seq":
            S.check(m.ctype == "El" and m.width is None, "element type")
            S.check(q.ok and len(ps) == 1, "COSMOS generation fails")
            items = ps[0].items
            S.check(
                [i.name for i in items[:3] + items[-1:]]
                == ["before", "one", "two", "after"],
                "item name or order",
            )
            S.check(
                2 + 2 * n == len(items),
                "COSMOS does not repeat the elements of a SEQUENCE array",
            )
        elif kind == "string":
            S.check(
                m.ctype != "char", "array of strings becomes a single string"
            )

    return h


ENUMS = (127, 128, 129, 200, 255, 256, 257, 300)


def big_enum(gens, sizes):
    """An ENUMERATED with many items, defined here or imported."""

    def h(S):
        w = World(S)
        size = S.pick("items", sizes)
        d = asn.enumerated(S, "En", [("it%d" % k, None) for k in range(size)])
        seq = asn.sequence(
            S,
            "Msg-x",
            [
                asn.member(S, "before", asn.boolean(S)),
                asn.member(S, "state", w.put(d, S.flag("imported"))),
                asn.member(
                    S, "after", asn.integer(S, 0, S.int("hi", 0, 300))
                ),
            ],
        )
        mods = w.modules(seq)
        g = S.pick("gen", gens)
        r = asn.run(S, g, mods)
        S.check(r.ok, "C generation fails")
        oracle.check_struct(S, S.c(r, FILES[g]), seq)
        q = asn.run(S, "cosmos", mods, ["m"], messages=["Msg-x"])
        S.check(q.ok, "COSMOS generation fails")
        ps = S.cosmos(q)
        S.check(len(ps) == 1, "one packet")
        oracle.check_packet(S, ps[0], seq)

    return h


def more(tier):
    q = tier == "quick"
    out = [
        H(
            "array-%s-%s" % (e, g),
            arrays([e], [g], 12 if e == "seq" else 1 << 20),
            "array of %s elements between two other members" % e,
            cover=(e,),
        )
        for e in ("int", "real", "enum", "bool", "seq", "string")
        for g in (("cfs",) if q else ("cfs", "c", "binary"))
    ]
    sizes = (129, 257) if q else ENUMS
    out += [
        H(
            "big-enum-" + g,
            big_enum([g], sizes),
            "ENUMERATED with %s items, local or imported" % (sizes,),
        )
        for g in ("cfs", "c", "binary")
    ]
    return out


def both(S, w, r):
    w.check_types(r)
    q = w.run(gen="cosmos")
    S.check(q.ok, "COSMOS generation fails")
    w.check_packets(q)


def harnesses(tier):
    return (
        base(tier)
        + more(tier)
        + world.harnesses(("cfs", "c", "binary"), both)
    )


def base(tier):
    if tier == "quick":
        return [
            H(
                "cfs-%s" % a,
                harness([a], [("bool", "simple-real", "seq")], ["cfs"]),
                "two members: %s, then BOOLEAN, REAL or a structure" % a,
                cover=(a,),
            )
            for a in KINDS
        ] + [
            H(
                g,
                harness(("enum", "imported-seq", "simple", "array"), [("sint",)], [g]),
                "two members",
            )
            for g in ("c", "binary")
        ]
    return [
        H(
            "%s-%s" % (g, a),
            harness([a], [KINDS, KINDS], [g]),
            "three members of every kind, first %s" % a,
            cover=KINDS,
        )
        for g in ("cfs", "c", "binary")
        for a in KINDS
    ]
