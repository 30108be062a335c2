"""C18: cFS macros of fixed values."""
from symapg import asn, ccsds, oracle, world
from symapg.asn import H
from symapg.core import land
from props.c04 import total


def expected(S, seq):
    """(macro name, value) of every fixed value of a message."""
    out = []

    def walk(comps):
        for k, v in comps:
            if isinstance(v, list):
                if k == "primary":
                    ((_, inner),) = v
                    out.append((seq.name + "_MID", total(S, dict(inner))[0]))
                else:
                    walk(v)
            else:
                out.append((seq.name + "_" + k, v))

    for key, t, wc, cm in seq.members:
        walk(wc or [])
    return [(oracle.upper(oracle.cname(n)), v) for n, v in out]


def check_defines(S, f, seqs):
    want = [x for s in seqs for x in expected(S, s)]
    S.check(len(f.defines) == len(want), "number of macros")
    for name, v in want:
        hits = [d for d in f.defines if S.truth(S.eq(d[0], name))]
        S.check(len(hits) == 1, "macro is missing or not unique")
        text = hits[0][1].strip()
        if text.startswith("(") and text.endswith(")"):
            text = text[1:-1]
        else:
            S.fail("macro value without parentheses")
        if isinstance(v, bool):
            v = S.truth(v)
            S.check(text == ("true" if v else "false"), "BOOLEAN macro value")
        else:
            n = S.num(text)
            if n is None:
                S.fail("macro value is not a number")
            S.check(n == v, "macro value")


def harness(shape, gen="cfs"):
    def h(S):
        i = S.int("i", -(1 << 40), 1 << 40)
        j = S.int("j", -5, 1 << 20)
        b = S.bool("b")
        x = S.float("x")
        leaf = asn.sequence(
            S,
            "Leaf",
            [
                asn.member(S, "num-a", asn.integer(S, -(1 << 41), 1 << 41)),
                asn.member(S, "flag", asn.boolean(S)),
                asn.member(S, "rl", asn.real(S, -1.0e300, 1.0e300)),
            ],
        )
        ident, prim, hdr = ccsds.header(
            S,
            [
                asn.member(S, "second", asn.ref(S, leaf)),
                asn.member(S, "code", asn.integer(S, 0, 1 << 20)),
            ],
        )
        # macro names are <message>_<key>: the keys a message fixes differ
        more = asn.sequence(
            S,
            "More",
            [
                asn.member(S, "flag-two", asn.boolean(S)),
                asn.member(S, "sub", asn.ref(S, leaf)),
            ],
        )
        defs = [leaf, more, ident, prim, hdr]
        comps = []
        if shape & 1:
            comps.append(("code", j))
        if shape & 2:
            inner = [("num-a", i), ("flag", b), ("rl", x)]
            comps.append(("second", inner))
        if shape & 4:
            comps.append(
                (
                    "primary",
                    [(ccsds.IDENT, [(ccsds.APID, S.int("apid", 0, 2047))])],
                )
            )
        if S.flag("reverse"):
            comps.reverse()
        second = [("flag-two", S.bool("c"))] if S.flag("two members") else None
        seq = asn.sequence(
            S,
            "Msg-one",
            [
                asn.member(S, "hdr", asn.ref(S, hdr), comps),
                asn.member(S, "mid", asn.integer(S, 0, 7)),
                asn.member(S, "more", asn.ref(S, more), second),
            ],
        )
        other = asn.sequence(
            S,
            "Msg-two",
            [asn.member(S, "pay", asn.ref(S, leaf), [("num-a", j)])],
        )
        r = asn.run(
            S, "cfs", [("m", asn.module(S, "m", defs + [seq, other]))]
        )
        S.check(r.ok, "valid message is rejected")
        f = S.c(r, "m_msgids.h")
        check_defines(S, f, [seq, other])
        fm = S.c(r, "m_msg.h")
        S.check(fm.defines == [], "macros in the message header")
        for d in (seq, other):
            oracle.check_struct(S, fm, d)
        S.cover("two members" if second else "one member")

    return h


def modules(S, w, r):
    for role, m in w.mods.items():
        f = S.c(r, oracle.cname(m.name) + "_msgids.h")
        check_defines(S, f, [d for d in m.defs if d.kind == "seq"])
        S.check(w.hfile(r, role).defines == [], "macros in the message header")
    w.check_types(r)


def harnesses(tier):
    shapes = (1, 2, 5, 7) if tier == "quick" else range(1, 8)
    return world.harnesses(("cfs",), modules) + [
        H(
            "shape%d" % k,
            harness(k),
            "fixed integers in [-2^40, 2^40], finite doubles, booleans; nesting shape %d" % k,
            cover=("two members", "one member"),
        )
        for k in shapes
    ]
