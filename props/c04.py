"""C04: the CCSDS message identifier macro of every message."""
from symapg import asn, ccsds, oracle, world
from symapg.asn import H
from symapg.ccsds import APID, FLAG, IDENT, SHIFT, TYPE, VERSION, WIDTH
from symapg.core import land, lor

ORDERS = (
    (VERSION, TYPE, FLAG, APID),
    (APID, FLAG, TYPE, VERSION),
    (FLAG, APID, VERSION, TYPE),
)


def ident_values(S, tag, wide):
    """(components, in range, message id) for a symbolic header."""
    vals = {}
    form = S.pick("form" + tag, ["bool", "int"])
    for k in ORDERS[0]:
        if k in (TYPE, FLAG) and form == "bool":
            vals[k] = S.bool(tag + k)
        else:
            top = (1 << WIDTH[k]) + wide
            vals[k] = S.int(tag + k, -wide, top)
    return vals


def total(S, given):
    mid, ok = 0, True
    for k, v in given.items():
        if type(v).__name__ == "SymBool":
            v = 1 if S.truth(v) else 0
        v = v + 0
        ok = land(ok, v >= 0, v <= (1 << WIDTH[k]) - 1)
        mid = mid + v * (1 << SHIFT[k])
    return mid, ok


def message(S, name, hdr, comps, extra=()):
    return asn.sequence(
        S,
        name,
        [
            asn.member(
                S,
                "hdr",
                asn.ref(S, hdr),
                [("primary", [(IDENT, comps)])] + list(extra),
            ),
            asn.member(S, "data", asn.integer(S, 0, 255)),
        ],
    )


def one(imported, masks, wide, orders):
    def h(S):
        vals = ident_values(S, "", wide)
        mask = S.pick("given", masks)
        order = S.pick("order", orders)
        comps = [(k, vals[k]) for k in order if mask >> ORDERS[0].index(k) & 1]
        defs = ccsds.header(S)
        msg = message(S, "Cmd-ping", defs[2], comps)
        if imported:
            mods = [
                ("base", asn.module(S, "base", defs)),
                (
                    "m",
                    asn.module(S, "m", [msg], [([defs[2]], "base")]),
                ),
            ]
        else:
            mods = [("m", asn.module(S, "m", list(defs) + [msg]))]
        r = asn.run(S, "cfs", mods)
        mid, ok = total(S, dict(comps))
        if not S.truth(ok):
            S.cover("out of range")
            S.check(
                r.rejected, "header value that overflows its bits is accepted"
            )
            return
        S.check(r.ok, "valid header values are rejected")
        S.cover("mid")
        f = S.c(r, "m_msgids.h")
        S.check(len(f.defines) == 1, "number of macros")
        name, val = f.defines[0]
        S.check(S.eq(name, "CMD_PING_MID"), "macro name")
        S.check(
            S.intval(val, "macro value is a number") == mid,
            "message id does not equal the CCSDS header bits",
        )
        if imported:
            S.check(
                S.c(r, "base_msgids.h").defines == [], "macros of a header"
            )

    return h


def two(S):
    """Two messages of one module keep their own identifiers."""
    a = {k: S.int("a" + k, 0, (1 << WIDTH[k]) - 1) for k in ORDERS[0]}
    b = {k: S.int("b" + k, 0, (1 << WIDTH[k]) - 1) for k in ORDERS[0]}
    defs = ccsds.header(S)
    given = S.pick("a given", [ORDERS[0], (APID,), (VERSION, FLAG)])
    ga = [(k, a[k]) for k in given]
    gb = [(k, b[k]) for k in ORDERS[1]]
    ms = [message(S, "Cmd-a", defs[2], ga), message(S, "Tlm-b", defs[2], gb)]
    if S.flag("swap"):
        ms.reverse()
    r = asn.run(S, "cfs", [("m", asn.module(S, "m", list(defs) + ms))])
    S.check(r.ok, "valid header values are rejected")
    f = S.c(r, "m_msgids.h")
    S.check(len(f.defines) == 2, "number of macros")
    d = {n: v for n, v in f.defines}
    for name, g in (("CMD_A_MID", ga), ("TLM_B_MID", gb)):
        S.check(name in d, "macro name")
        S.check(
            S.intval(d[name], "macro value is a number")
            == total(S, dict(g))[0],
            "message id of one of two messages",
        )
    S.cover("two")


def check_mids(S, f, want):
    d = [x for x in f.defines if x[0].endswith("_MID")]
    S.check(len(d) == len(want), "number of identifiers")
    d = dict(d)
    for name, given in want:
        S.check(name in d, "macro name")
        S.check(
            S.intval(d[name], "macro value is a number") == total(S, given)[0],
            "message id does not equal the CCSDS header bits",
        )


def nested(S):
    """The header lies deeper, next to other fixed values."""
    defs = ccsds.header(S, [asn.member(S, "code", asn.integer(S, 0, 127))])
    given = {k: S.int("v" + k, 0, (1 << WIDTH[k]) - 1) for k in S.pick("given", (ORDERS[0], ORDERS[1], (APID,), (TYPE, VERSION)))}
    comps = [("primary", [(IDENT, list(given.items()))])]
    if S.flag("sibling"):
        comps.insert(S.choose("sibling at", 2), ("code", S.int("code", 0, 127)))
    top, wraps = defs[2], []
    for i in range(S.choose("depth", 5)):
        top = asn.sequence(
            S,
            "Wrap%d" % i,
            [
                asn.member(S, "n%d" % i, asn.integer(S, 0, 255)),
                asn.member(S, "w%d" % i, asn.ref(S, top)),
            ],
        )
        wraps.append(top)
        comps = [("w%d" % i, comps)]
        if S.flag("more at %d" % i):
            comps.insert(i % 2, ("n%d" % i, 3 + i))
    msg = asn.sequence(
        S,
        "Msg-x",
        [
            asn.member(S, "before", asn.integer(S, 0, 255)),
            asn.member(S, "top", asn.ref(S, top), comps),
            asn.member(S, "after", asn.ref(S, defs[2])),
        ],
    )
    r = asn.run(S, "cfs", [("m", asn.module(S, "m", [msg] + wraps + list(defs)))])
    S.check(r.ok, "valid header values are rejected")
    check_mids(S, S.c(r, "m_msgids.h"), [("MSG_X_MID", given)])
    S.cover("depth %d" % len(wraps))


def several(n):
    """Many messages in two modules, each with its own header."""

    def h(S):
        defs = ccsds.header(S, [asn.member(S, "code", asn.integer(S, 0, 127))])
        mods = {"ma": [], "mb": []}
        want = {"ma": [], "mb": []}
        form = S.choose("form", 3)
        for i in range(n):
            keys = (ORDERS[i % 3], ORDERS[0][i % 4 :], ORDERS[1][: 1 + i % 4])[form]
            given = {k: S.int("%d %s" % (i, k), 0, (1 << WIDTH[k]) - 1) for k in keys}
            where = "ma" if (i + form) % 3 else "mb"
            extra = [("code", i)] if i % 2 else ()
            mods[where].append(message(S, "Msg-%d" % i, defs[2], list(given.items()), extra))
            want[where].append(("MSG_%d_MID" % i, given))
        files = [
            (x, asn.module(S, x, ds, [([defs[2]], "base")])) for x, ds in mods.items()
        ]
        files.insert(form, ("base", asn.module(S, "base", defs)))
        r = asn.run(S, "cfs", files)
        S.check(r.ok, "valid header values are rejected")
        for x in mods:
            check_mids(S, S.c(r, x + "_msgids.h"), want[x])
        S.cover("form %d" % form)

    return h


def mids(S, w, r):
    """The only message with a header has the only identifier."""
    for role in w.mods:
        f = S.c(r, oracle.cname(w.md[role]) + "_msgids.h")
        d = [x for x in f.defines if x[0].endswith("_MID")]
        S.check(len(d) == (1 if role == "m" else 0), "number of identifiers")
        if d:
            name = oracle.upper(oracle.cname(w.by["m1"].name)) + "_MID"
            S.check(S.eq(d[0][0], name), "macro name")
            wc = w.by["m1"].members[0][2]
            given = dict(wc[0][1][0][1])
            S.check(
                S.intval(d[0][1], "macro value is a number")
                == total(S, given)[0],
                "message id does not equal the CCSDS header bits",
            )


def harnesses(tier):
    quick = tier == "quick"
    masks = [15, 14, 13, 11, 7, 8] if quick else list(range(1, 16))
    out = world.harnesses(("cfs",), mids)
    for imp in (False, True):
        out.append(
            H(
                "imported" if imp else "local",
                one(imp, masks if not imp else [15, 9], 2, ORDERS if not (quick and imp) else ORDERS[:1]),
                "every header value from 2 below to 2 above its range; subsets %s of the four fields, %d orders"
                % (masks, len(ORDERS)),
                cover=("mid", "out of range"),
            )
        )
    out.append(
        H(
            "wide",
            one(False, [15], 1 << 20, ORDERS[:1]),
            "every header value within 2^20 of its range",
            cover=("mid", "out of range"),
        )
    )
    out.append(H("nested", nested, "header at depth 1 to 5, other values before or after at every depth", cover=tuple("depth %d" % i for i in range(5))))
    n = 12 if quick else 40
    out.append(H("several", several(n), "%d messages in two modules, every value in range" % n, cover=("form 0", "form 1", "form 2")))
    out.append(H("two", two, "two messages, every value in range", cover=("two",)))
    return out
