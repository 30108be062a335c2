"""C21: COSMOS packets do not depend on the other messages requested."""
import itertools

from symapg import asn, ccsds, oracle, world
from symapg.asn import H

ASSUMPTIONS = ["a message is requested at most once per run"]


def lists(n):
    return [
        p for k in range(1, n + 1) for p in itertools.permutations(range(n), k)
    ]


def same_packet(S, a, b):
    """Equal in everything that is in the file."""
    lab = "packet depends on the other messages"
    S.check(S.eq(a.name, b.name), lab)
    S.check(S.eq(a.comment, b.comment), lab)
    S.check(a.target == b.target and a.endianness == b.endianness, lab)
    S.check(len(a.items) == len(b.items), lab)
    for x, y in zip(a.items, b.items):
        S.check(x.kind == y.kind and x.endianness == y.endianness, lab)
        for k in ("name", "bits", "type", "value", "array", "comment"):
            p, q = getattr(x, k), getattr(y, k)
            S.check((p is None) == (q is None), lab)
            if p is not None:
                S.check(S.eq(p, q), lab)
        for k in ("limits", "units"):
            p, q = getattr(x, k), getattr(y, k)
            S.check((p is None) == (q is None), lab)
            for u, v in zip(p or (), q or ()):
                S.check(S.eq(u, v), lab)
        S.check(len(x.states) == len(y.states), lab)
        for (u, v), (w, z) in zip(x.states, y.states):
            S.check(S.eq(u, w), lab)
            S.check(S.eq(v, z), lab)


def definitions(S, shape):
    """Shared types and three messages with different fixed values."""
    a = [S.int("apid %d" % i, 0, 2047) for i in range(3)]
    n = [S.int("value %d" % i, 0, 255) for i in range(3)]
    b = S.bool("flag")
    leaf = asn.sequence(
        S,
        "Leaf",
        [
            asn.member(S, "num", asn.integer(S, 0, 255), comment="[V] a voltage"),
            asn.member(S, "on", asn.boolean(S), comment="ENDIANNESS(LITTLE) a switch"),
        ],
    )
    mode = asn.enumerated(S, "Mode", [("idle", None), ("busy", None)])
    ident, prim, hdr = ccsds.header(S, [asn.member(S, "second", asn.ref(S, leaf))])

    def head(i, *more):
        return asn.member(
            S,
            "hdr",
            asn.ref(S, hdr),
            [("primary", [(ccsds.IDENT, [(ccsds.APID, a[i])] + list(more))])],
        )

    if shape == "headers":
        # the same header, once without any fixed value
        msgs = [
            [head(0, (ccsds.TYPE, b)), asn.member(S, "mode", asn.ref(S, mode))],
            [head(1), asn.member(S, "pay", asn.ref(S, leaf), [("num", n[1])])],
            [asn.member(S, "hdr", asn.ref(S, hdr)), asn.member(S, "pay", asn.ref(S, leaf))],
        ]
    elif shape == "payloads":
        # the same type under the same key, with other keys fixed
        msgs = [
            [asn.member(S, "pay", asn.ref(S, leaf), [("num", n[0])])],
            [asn.member(S, "pay", asn.ref(S, leaf), [("on", b)])],
            [
                asn.member(S, "pay", asn.ref(S, leaf), [("num", n[1]), ("on", True)]),
                asn.member(S, "mode", asn.ref(S, mode)),
            ],
        ]
    else:
        # own fixed values inside of types that are constrained from outside
        mid = asn.sequence(
            S,
            "Mid",
            [
                asn.member(S, "leaf", asn.ref(S, leaf), [("num", n[0])]),
                asn.member(S, "other", asn.ref(S, leaf)),
            ],
        )
        msgs = [
            [asn.member(S, "mid", asn.ref(S, mid), [("leaf", [("on", b)])])],
            [asn.member(S, "mid", asn.ref(S, mid), [("other", [("num", n[1])])])],
            [asn.member(S, "mid", asn.ref(S, mid)), head(2)],
        ]
    extra = [mid] if shape == "nested" else []
    seqs = [
        asn.sequence(S, "Msg-" + "abc"[i], ms, comment="message %d" % i)
        for i, ms in enumerate(msgs)
    ]
    return [leaf, mode, ident, prim, hdr] + extra, seqs


def harness(shape):
    def h(S):
        shared, seqs = definitions(S, shape)
        if S.flag("imported"):
            mods = [
                ("m", asn.module(S, "m", seqs, [(shared, "lib")])),
                ("lib", asn.module(S, "lib", shared)),
            ]
        else:
            mods = [("m", asn.module(S, "m", seqs + shared))]
        wanted = [seqs[i] for i in S.pick("messages", lists(3))]

        def packets(ds):
            r = asn.run(
                S, "cosmos", mods, ["m"], messages=[str(d.name) for d in ds]
            )
            S.check(r.ok, "valid messages are rejected")
            S.check(len(r.files) == 1, "number of files")
            ps = S.cosmos(r)
            S.check(len(ps) == len(ds), "number of packets")
            return ps

        ps = packets(wanted)
        for p, d in zip(ps, wanted):
            oracle.check_packet(S, p, d)
        if len(wanted) > 1:
            for p, d in zip(ps, wanted):
                (alone,) = packets([d])
                same_packet(S, p, alone)
        S.cover("%d messages" % len(wanted))

    return h


def whole(S):
    """A message that contains another message, both requested."""
    n = [S.int("value %d" % i, 0, 255) for i in range(2)]
    leaf = asn.sequence(
        S,
        "Leaf",
        [asn.member(S, "num", asn.integer(S, 0, 255)), asn.member(S, "top", asn.integer(S, 0, 15))],
    )
    inner = asn.sequence(S, "Inner", [asn.member(S, "pay", asn.ref(S, leaf), [("num", n[0])])])
    outer = asn.sequence(
        S,
        "Outer",
        [
            asn.member(S, "first", asn.ref(S, inner), [("pay", [("top", 3)])]),
            asn.member(S, "second", asn.ref(S, inner)),
            asn.member(S, "third", asn.ref(S, leaf), [("num", n[1])]),
        ],
    )
    seqs = [inner, outer, leaf]
    wanted = [seqs[i] for i in S.pick("messages", lists(3))]
    mods = [("m", asn.module(S, "m", [outer, inner, leaf]))]
    r = asn.run(S, "cosmos", mods, ["m"], messages=[str(d.name) for d in wanted])
    S.check(r.ok, "valid messages are rejected")
    ps = S.cosmos(r)
    S.check(len(ps) == len(wanted), "number of packets")
    for p, d in zip(ps, wanted):
        oracle.check_packet(S, p, d)
    S.cover("compared")


def names(n):
    """Requested names and packet names are the same, character by character."""

    def h(S):
        ts = [S.name("type %d" % i, n + i, "ab-1", capital=True) for i in range(3)]
        seqs = [
            asn.sequence(S, t, [asn.member(S, "x", asn.integer(S, 0, (1 << (i + 1)) - 1))])
            for i, t in enumerate(ts)
        ]
        wanted = [seqs[i] for i in S.pick("messages", lists(3))]
        mods = [("m", asn.module(S, "m", seqs))]
        r = asn.run(S, "cosmos", mods, ["m"], messages=[d.name for d in wanted])
        S.check(r.ok, "valid messages are rejected")
        ps = S.cosmos(r)
        S.check(len(ps) == len(wanted), "number of packets")
        for p, d in zip(ps, wanted):
            oracle.check_packet(S, p, d)
        S.cover("compared")

    return h


def large(S):
    w = world.World(S, "cosmos", S.pick("names", sorted(world.SCHEMES)), comments=True)
    if "Mdeep" in w.by:
        roles = w.messages[::-1] if S.flag("reverse") else w.messages[3:] + w.messages[:5]
    else:
        roles = [("m1", "m2", "m3", "top", "wide")[i] for i in S.pick("messages", ((0, 1), (1, 0), (2, 1), (3, 1), (1, 3, 2), (4, 0, 2), (2, 4, 3, 1, 0)))]
    r = w.run(messages=[w.by[x].name for x in roles])
    S.check(r.ok, "valid messages are rejected")
    ps = w.check_packets(r, roles)
    for i, (p, x) in enumerate(zip(ps, roles)):
        if len(roles) > 5 and i % 4:
            continue
        q = w.run(messages=[w.by[x].name])
        S.check(q.ok, "valid messages are rejected")
        (alone,) = S.cosmos(q)
        same_packet(S, p, alone)
    S.cover("compared")


def harnesses(tier):
    q = tier == "quick"
    cov = ("1 messages", "2 messages", "3 messages")
    out = [
        H(
            s,
            harness(s),
            "every list of up to 3 of 3 messages; APIDs, numbers and a BOOLEAN are fixed to any value; shared types local or imported",
            cover=cov,
        )
        for s in ("headers", "payloads", "nested")
    ]
    out.append(H("large", large, "seven lists of five messages of a large bundle, nine naming schemes, in one of them 15 messages at once", cover=("compared",)))
    out.append(H("whole", whole, "every list of up to 3 of 3 messages that contain each other", cover=("compared",)))
    out.append(
        H("names", names(1 if q else 4), "every list of up to 3 of 3 messages with names of %d to %d characters" % ((1, 3) if q else (4, 6)), cover=("compared",))
    )
    return out
