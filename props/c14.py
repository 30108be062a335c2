"""C14: the output depends only on the module contents."""
import itertools

from symapg import asn, world
from symapg.asn import H
from symapg.core import land, lnot

HASH_SEEDS = 8
ASSUMPTIONS = [
    "hash-seed nondeterminism is modelled as a free choice, for up to 2 (thorough: 3) places in the program that iterate over a set,"
    " among 3 (thorough: 6) orders of the set - all orders of sets with 2 (3) elements; real runs use up to %d hash seeds" % HASH_SEEDS,
    "set iterations inside library code (textX, argparse) are not varied symbolically, only by the real runs",
]


def same(S, a, b, label):
    S.check(not a.hang and not b.hang, "does not terminate")
    S.check(a.ok == b.ok, label + ": exit status")
    S.check(len(a.files) == len(b.files), label + ": number of files")
    for name, text in a.files.items():
        other = S.file(b, name)
        S.check(other is not None, label + ": set of files")
        S.check(S.eq(text, other), label + ": file contents")


def bundle(S, gen, shape, names, values=True):
    """Three modules that import from each other according to shape."""
    a, b, c = names
    hi = S.int("upper bound", 4, 7) if values is True else values
    wc = None
    small = asn.simple(S, "Small", asn.integer(S, 0, hi))
    octet = asn.simple(S, "Octet", asn.integer(S, 0, 255))
    mode = asn.enumerated(S, "Mode", [("off", None), ("on", None), ("auto", None)])
    point = asn.sequence(
        S,
        "Point",
        [
            asn.member(S, "px", asn.ref(S, small)),
            asn.member(S, "py", asn.ref(S, octet)),
        ],
    )
    base = [small, mode, point, octet]
    raw = asn.sequence(S, "Raw", [asn.member(S, "num", asn.integer(S, 0, 255))])
    msg = asn.sequence(
        S,
        "Msg",
        [
            asn.member(S, "where", asn.ref(S, point), wc=[("py", 7)]),
            asn.member(S, "mode", asn.ref(S, mode)),
            asn.member(S, "count", asn.ref(S, small)),
        ]
        if gen != "binary"
        else [
            # of a local type, see C06
            asn.member(S, "raw", asn.ref(S, raw), wc=[("num", hi)]),
            asn.member(S, "mode", asn.ref(S, mode)),
            asn.member(S, "count", asn.ref(S, small)),
        ],
    )
    other = asn.sequence(
        S,
        "Other",
        [
            asn.member(S, "count", asn.ref(S, small)),
            asn.member(S, "level", asn.ref(S, octet)),
        ]
        + ([asn.member(S, "inner", asn.ref(S, msg))] if shape == "chain" else []),
    )
    types = ["Small", "Octet", "Mode", "Point"]
    imp_b = [(types, a)]
    imp_c = [(["Small", "Octet"], a)]
    if shape == "chain":
        imp_c.append((["Msg"], b))
    return [
        (a, asn.module(S, a, base)),
        (b, asn.module(S, b, [msg, raw], imp_b)),
        (c, asn.module(S, c, [other], imp_c)),
    ]


PERMS = list(itertools.permutations(range(3)))


def orders(gen, shape):
    def h(S):
        # one-letter names, so that every alphabetical order occurs
        names = [S.name("module %d" % i, 1, "abc") for i in range(3)]
        S.assume(
            land(*[lnot(S.eq(names[i], names[j])) for i in range(3) for j in range(i)])
        )
        mods = bundle(S, gen, shape, names)
        po = S.pick("order of the files", PERMS)
        opt = dict(messages=["Other"])
        if gen == "cosmos":
            lo, want, again = PERMS[0], [names[2]], [names[2]]
        else:
            lo = S.pick("order of the names", PERMS)
            want = list(names)
            again = [names[i] for i in lo]
        r1 = asn.run(S, gen, mods, want, **opt)
        S.check(r1.ok, "valid input is rejected")
        r2 = asn.run(S, gen, mods, again, order=po, **opt)
        same(S, r1, r2, "other order on the command line")
        S.cover("compared")

    return h


def paths(gen):
    """Names of the input files do not matter."""

    def h(S):
        mods = bundle(S, gen, "chain", ["m-a", "m-b", "m-c"])
        r1 = asn.run(S, gen, mods, ["m-c"] if gen == "cosmos" else None, messages=["Other"])
        S.check(r1.ok, "valid input is rejected")
        p = S.pick("names", PERMS)
        files = {"in/%s.asn" % "xyz"[p[i]]: t for i, (_, t) in enumerate(mods)}
        names = ["m-c"] if gen == "cosmos" else ["m-a", "m-b", "m-c"]
        r2 = S.run(files, asn.cmd(S, gen, sorted(files), names, messages=["Other"]))
        same(S, r1, r2, "other file names")
        S.cover("compared")

    return h


STALE = {
    "cfs": ("m_a_msg.h", "m_b_msg.h", "m_b_msgids.h", "m_c_msgids.h"),
    "c": ("m_a.h", "m_b.h", "m_b.c", "m_c.c"),
    "binary": ("m_a.h", "m_b.h", "msg.bin"),
}


def stale(gen):
    """What is in the output directory already does not matter."""

    def h(S):
        mods = bundle(S, gen, "chain", ["m-a", "m-b", "m-c"])
        files = {"in/m%d.asn" % i: t for i, (_, t) in enumerate(mods)}
        argv = asn.cmd(S, gen, list(files), ["m-a", "m-b", "m-c"], out="out/d")
        r1 = S.run(files, argv)
        S.check(r1.ok, "valid input is rejected")
        left = {}
        for name in STALE[gen]:
            if S.flag("left over: " + name):
                left["out/d/" + name] = "left from an earlier run, " * 99
        if S.flag("foreign file"):
            left["out/d/other.h"] = "not generated"
        r2 = S.run(dict(files, **left), argv)
        if "out/d/other.h" in left:
            S.check(r2.files.pop("d/other.h", None) == "not generated", "foreign file is changed")
        same(S, r1, r2, "files left by an earlier run")
        S.cover("compared")

    return h


def earlier(gen):
    """The output directory holds the files of an earlier version."""

    def h(S):
        names = ["m-a", "m-b", "m-c"]
        mods = bundle(S, gen, "chain", names)
        # another value: files of the same names, often of the same size
        old = bundle(S, gen, "chain", names, values=S.pick("earlier value", (4, 6, 7, 200)))
        argv = lambda m: asn.cmd(S, gen, list(m), names, out="out/d", endianness="big-endian")
        give = lambda m: {"in/m%d.asn" % i: t for i, (_, t) in enumerate(m)}
        was = give(old)
        r0 = S.run(was, argv(was))
        S.check(r0.ok, "valid input is rejected")
        now = give(mods)
        r1 = S.run(now, argv(now))
        S.check(r1.ok, "valid input is rejected")
        left = {"out/" + n: t for n, t in r0.files.items()}
        if S.flag("twice"):
            # and of this version
            left = {"out/" + n: t for n, t in r1.files.items()}
        r2 = S.run(dict(now, **left), argv(now))
        same(S, r1, r2, "files left by an earlier run")
        S.cover("compared")

    return h


def hashes(gen, shape, policies, dev):
    def h(S):
        mods = bundle(S, gen, shape, ["m-a", "m-b", "m-c"])
        names = ["m-c"] if gen == "cosmos" else ["m-a", "m-b", "m-c"]
        files = {"in/m%d.asn" % i: t for i, (_, t) in enumerate(mods)}
        argv = asn.cmd(S, gen, list(files), names, messages=["Other"])
        r1 = S.run(files, argv)
        S.check(r1.ok, "valid input is rejected")
        r2 = S.run_any_hash(files, argv, policies, dev)
        same(S, r1, r2, "other hash seed")
        S.cover("compared")

    return h


def large(gen, schemes):
    """A large bundle: reversed, rotated, renamed files."""

    def h(S):
        scheme = S.pick("names", schemes)
        w = world.World(S, gen, scheme)
        r1 = w.run()
        S.check(r1.ok, "valid input is rejected")
        names = list(w.md.values())
        order = S.pick("order", ((3, 2, 1, 0), (1, 2, 3, 0), (2, 0, 3, 1)))
        again = [w.md["m"]] if gen == "cosmos" else [names[i] for i in order]
        r2 = w.run(again, order=order)
        same(S, r1, r2, "other order on the command line")
        r3 = S.run_any_hash(
            {"in/m%d.asn" % i: t for i, (_, t) in enumerate(w.files())},
            asn.cmd(
                S,
                gen,
                ["in/m%d.asn" % i for i in range(4)],
                [w.md["m"]] if gen == "cosmos" else names,
                messages=[w.by[x].name for x in ("m1", "m2", "m3")],
                endianness="big-endian",
            ),
            2,
            1,
        )
        same(S, r1, r3, "other hash seed")
        S.cover(scheme)

    return h


def harnesses(tier):
    q = tier == "quick"
    schemes = ("plain", "dashes", "digits") if q else world.SMALL
    out = [
        H("large-" + g, large(g, schemes), "four modules with 18 to 24 definitions, %d naming schemes, three other orders" % len(schemes), cover=schemes)
        for g in ("cfs", "c", "binary", "cosmos")
    ]
    cov = ("compared",)
    for g in ("cfs", "c", "binary", "cosmos"):
        for shape in ("chain", "star"):
            if q and shape == "star" and g in ("c", "binary"):
                continue
            out.append(
                H(
                    "orders-%s-%s" % (shape, g),
                    orders(g, shape),
                    "3 modules with any one-letter names, every order of files and of names",
                    cover=cov,
                )
            )
            out.append(
                H(
                    "hash-%s-%s" % (shape, g),
                    hashes(g, shape, 3 if q else 6, 2 if q else 3),
                    "up to %d places that iterate over a set do so in any of %d orders" % ((2, 3) if q else (3, 6)),
                    cover=cov,
                )
            )
        if g != "cosmos":
            out.append(
                H("stale-" + g, stale(g), "every subset of 3 or 4 generated files exists already", cover=cov)
            )
        if g != "cosmos":  # which appends to the file, see DESIGN.md
            out.append(
                H("earlier-" + g, earlier(g), "the files of an earlier version of the bundle exist already", cover=cov)
            )
        out.append(H("paths-" + g, paths(g), "every assignment of 3 file names", cover=cov))
    return out
