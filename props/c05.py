"""C05: COSMOS fixed values reach exactly the field they address."""
from symapg import asn, ccsds, oracle, world
from symapg.asn import H


def leaf_type(S, name, extra=()):
    return asn.sequence(
        S,
        name,
        [
            asn.member(S, "num", asn.integer(S, 0, 255)),
            asn.member(S, "flag", asn.boolean(S)),
        ]
        + list(extra),
    )


def value(S, label, kind):
    if kind == "num":
        return S.int(label, 0, 255)
    if kind == "sint":
        return S.int(label, -128, 127)
    if kind == "big":
        return S.int(label, 0, (1 << 64) - 1)
    if kind == "real":
        return S.float(label)
    return S.bool(label)


def message(S, mods, name, places):
    """Runs COSMOS for one message and compares the packet."""


def finish(S, mods, msgs, order=None):
    r = asn.run(
        S, "cosmos", mods, ["m"], messages=[m.name for m in msgs], order=order
    )
    S.check(r.ok, "valid message is rejected")
    ps = S.cosmos(r)
    S.check(len(ps) == len(msgs), "number of packets")
    for p, m in zip(ps, msgs):
        oracle.check_packet(S, p, m)


def nested(place, split):
    """Two members of one type with two members of one type each."""

    def h(S):
        leaf = leaf_type(S, "Leaf")
        mid = asn.sequence(
            S,
            "Mid",
            [
                asn.member(S, "one", asn.ref(S, leaf)),
                asn.member(S, "num", asn.integer(S, 0, 255)),
                asn.member(S, "two", asn.ref(S, leaf)),
            ],
        )
        wcs = []
        for m in ("a", "b"):
            one = []
            two = []
            if S.flag(m + " one.num"):
                one.append(("num", value(S, m + "1n", "num")))
            if (m == "a" or split) and S.flag(m + " one.flag"):
                one.append(("flag", value(S, m + "1f", "flag")))
            if (m == "a" or split) and S.flag(m + " two.num"):
                two.append(("num", value(S, m + "2n", "num")))
            comps = []
            if one:
                comps.append(("one", one))
            if two:
                comps.append(("two", two))
            if S.flag(m + " num"):
                comps.append(("num", value(S, m + "n", "num")))
            if m == "a" and S.flag("reverse"):
                comps.reverse()
            wcs.append(comps)
        msg = asn.sequence(
            S,
            "Msg",
            [
                asn.member(S, "first", asn.ref(S, mid), wcs[0]),
                asn.member(S, "num", asn.integer(S, 0, 7)),
                asn.member(S, "second", asn.ref(S, mid), wcs[1]),
                asn.member(S, "flag", asn.boolean(S)),
                asn.member(S, "third", asn.ref(S, leaf)),
            ],
        )
        if place == "local":
            mods = [("m", asn.module(S, "m", [msg, mid, leaf]))]
        else:
            mods = [
                ("base", asn.module(S, "base", [leaf])),
                ("lib", asn.module(S, "lib", [mid], [([leaf], "base")])),
                (
                    "m",
                    asn.module(
                        S, "m", [msg], [([mid], "lib"), ([leaf], "base")]
                    ),
                ),
            ]
        finish(S, mods, [msg])
        n = sum(1 for w in wcs for _ in w)
        S.cover("none" if n == 0 else "some")

    return h


def kinds(S):
    """Every kind of field, fixed or not."""
    en = asn.enumerated(S, "Col", [("red", None), ("green", None), ("blue", None)])
    sd = asn.simple(S, "Cnt", asn.integer(S, 0, 65535))
    fields = [
        ("nn", asn.integer(S, 0, 255), "num"),
        ("ss", asn.integer(S, -128, 127), "sint"),
        ("ww", asn.integer(S, 0, (1 << 64) - 1), "big"),
        ("bb", asn.boolean(S), "bool"),
        ("rr", asn.real(S, -1.0e300, 1.0e300), "real"),
        ("ee", asn.ref(S, en), "enum"),
        ("dd", asn.ref(S, sd), "simple"),
        (ccsds.APID, asn.integer(S, 0, 65535), "simple"),
    ]
    which = S.pick("fixed", [f[0] for f in fields] + ["all", "none"])
    comps = []
    for key, t, kind in fields:
        if which in (key, "all"):
            if kind == "enum":
                v = S.int("v" + key, 0, 2)
            elif kind == "simple":
                v = S.int("v" + key, 0, 65535)
            else:
                v = value(S, "v" + key, kind)
            comps.append((key, v))
    pay = asn.sequence(S, "Pay", [asn.member(S, k, t) for k, t, _ in fields])
    msg = asn.sequence(
        S,
        "Msg",
        [
            asn.member(S, "pay", asn.ref(S, pay), comps),
            asn.member(S, "nn", asn.integer(S, 0, 255)),
            asn.member(S, "other", asn.ref(S, pay)),
        ],
    )
    finish(S, [("m", asn.module(S, "m", [msg, pay, en, sd]))], [msg])
    S.cover(which)


def header(S):
    """CCSDS header: APID in hexadecimal, flags as 0 and 1."""
    defs = ccsds.header(S, [asn.member(S, "code", asn.integer(S, 0, 127))])
    inner = []
    if S.flag("version"):
        inner.append((ccsds.VERSION, S.int("version value", 0, 7)))
    if S.flag("type"):
        inner.append((ccsds.TYPE, S.bool("type value")))
    if S.flag("flag"):
        inner.append((ccsds.FLAG, S.bool("flag value")))
    if S.flag("apid"):
        inner.append((ccsds.APID, S.int("apid value", 0, 2047)))
    comps = []
    if inner:
        comps.append(("primary", [(ccsds.IDENT, inner)]))
    if S.flag("code"):
        comps.append(("code", S.int("code value", 0, 127)))
    if S.flag("reverse"):
        comps.reverse()
    msg = asn.sequence(
        S,
        "Msg-hk",
        [
            asn.member(S, "hdr", asn.ref(S, defs[2]), comps),
            asn.member(S, "again", asn.ref(S, defs[0])),
        ],
    )
    mods = [
        ("ccsds", asn.module(S, "ccsds", defs)),
        (
            "m",
            asn.module(S, "m", [msg], [([defs[2], defs[0]], "ccsds")]),
        ),
    ]
    finish(S, mods, [msg])
    S.cover("apid" if inner and inner[-1][0] == ccsds.APID else "no apid")


def inside(S):
    """Fixed values inside a used structure meet those from outside."""
    leaf = leaf_type(S, "Leaf", [asn.member(S, "rate", asn.integer(S, 0, 15))])
    own = [("num", value(S, "own value", "num"))] if S.flag("own") else None
    mid = asn.sequence(
        S,
        "Mid",
        [
            asn.member(S, "one", asn.ref(S, leaf), own),
            asn.member(S, "two", asn.ref(S, leaf)),
        ],
    )
    outer = []
    if S.flag("outer one"):
        outer.append(("one", [("flag", value(S, "of", "flag"))]))
    if S.flag("outer two"):
        outer.append(
            ("two", [("num", value(S, "on", "num")), ("rate", S.int("or", 0, 15))])
        )
    msg = asn.sequence(
        S,
        "Msg",
        [
            asn.member(S, "in", asn.ref(S, mid), outer),
            asn.member(S, "plain", asn.ref(S, mid)),
        ],
    )
    other = asn.sequence(S, "Later", [asn.member(S, "in", asn.ref(S, mid))])
    msgs = [msg, other]
    if S.flag("later first"):
        msgs.reverse()
    finish(S, [("m", asn.module(S, "m", [msg, mid, leaf, other]))], msgs)
    S.cover("own" if own else "no own")


def packets(S, w, r):
    w.check_packets(r)
    q = w.run([w.md["tail"]], messages=[w.by["far"].name])
    S.check(q.ok, "valid message is rejected")
    w.check_packets(q, ("far",))


def harnesses(tier):
    q = tier == "quick"
    b = "two structures with two equal sub-structures each, every subset of fixed fields, values in [0,255]"
    return world.harnesses(("cosmos",), packets) + [
        H("kinds", kinds, "eight kinds of fields, one, all or none fixed, any value", cover=("all", "none", "rr")),
        H("header", header, "CCSDS header, every subset and value", cover=("apid", "no apid")),
        H("inside", inside, "fixed values inside and outside of a structure, two messages", cover=("own", "no own")),
        H("nested-local", nested("local", not q), b, cover=("some", "none")),
        H("nested-imported", nested("imported", not q), b + ", types from two modules", cover=("some", "none")),
    ]
