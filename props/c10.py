"""C10: the module list on the command line matches the input files."""
from symapg import asn, oracle, world
from symapg.asn import H
from symapg.core import lnot


def distinct(S, names):
    return all(
        not S.truth(S.eq(a, b))
        for i, a in enumerate(names)
        for b in names[:i]
    )


def member_of(S, x, names):
    return any(S.truth(S.eq(x, y)) for y in names)


def suffixes(gen):
    return {"cfs": ("_msg.h", "_msgids.h"), "c": (".h", ".c"), "binary": (".h",)}[gen]


def simple_module(S, name, i):
    seq = asn.sequence(
        S,
        "Typ" + "abc"[i],
        [asn.member(S, "x", asn.integer(S, 0, 255))],
    )
    return (name, asn.module(S, name, [seq])), seq


def bundle(gen, nm, nc, lengths):
    def h(S):
        files = [
            S.name("file %d" % i, S.pick("file length %d" % i, lengths), "ab-")
            for i in range(nm)
        ]
        # an argument is any text, not only a well-formed name
        names = [
            S.text("arg %d" % i, S.pick("arg length %d" % i, lengths), "abA-_ ")
            for i in range(nc)
        ]
        mods = [simple_module(S, n, i) for i, n in enumerate(files)]
        r = asn.run(S, gen, [m for m, _ in mods], names)
        good = (
            distinct(S, files)
            and distinct(S, names)
            and all(member_of(S, n, files) for n in names)
            and all(member_of(S, f, names) for f in files)
        )
        if not good:
            S.check(r.rejected, "module lists differ but are accepted")
            S.check(len(r.files) == 0, "output in spite of the rejection")
            S.cover("rejected")
            return
        S.check(r.ok, "matching module lists are rejected")
        S.cover("accepted")
        want = [oracle.cname(f) + s for f in files for s in suffixes(gen)]
        S.check(len(r.files) == len(want), "number of files")
        for w in want:
            S.check(S.file(r, w) is not None, "missing file")
        for f, (_, seq) in zip(files, mods):
            oracle.check_struct(S, S.c(r, oracle.cname(f) + suffixes(gen)[0]), seq)

    return h


def cosmos(nm, nmsg, length):
    def h(S):
        files = [S.name("file %d" % i, length, "ab-") for i in range(nm)]
        mod = S.name("module", length, "ab-")
        types = [
            [S.name("type %d %d" % (i, j), length, "ab", capital=True) for j in range(2)]
            for i in range(nm)
        ]
        flat = [t for ts in types for t in ts]
        # duplicated definitions are rejected (C11)
        for i, a in enumerate(flat):
            for b in flat[:i]:
                S.assume(lnot(S.eq(a, b)))
        msgs = [S.name("message %d" % i, length, "ab", capital=True) for i in range(nmsg)]
        mods, defs = [], []
        for i, n in enumerate(files):
            ds = [
                asn.sequence(
                    S, t, [asn.member(S, "x", asn.integer(S, 0, (1 << (1 + 2 * i + j)) - 1))]
                )
                for j, t in enumerate(types[i])
            ]
            defs.append(ds)
            mods.append((n, asn.module(S, n, ds)))
        r = asn.run(S, "cosmos", mods, [mod], messages=msgs)
        good = distinct(S, files)
        which = None
        if good:
            for i, f in enumerate(files):
                if S.truth(S.eq(f, mod)):
                    which = i
        found = []
        if which is not None:
            for m in msgs:
                for d in defs[which]:
                    if S.truth(S.eq(d.name, m)):
                        found.append(d)
        if not (good and which is not None and len(found) == len(msgs)):
            S.check(r.rejected, "missing module or message is accepted")
            S.check(len(r.files) == 0, "output in spite of the rejection")
            S.cover("rejected")
            return
        S.check(r.ok, "existing messages are rejected")
        S.cover("accepted")
        S.check(len(r.files) == 1, "number of files")
        ps = S.cosmos(r)
        S.check(len(ps) == len(found), "number of packets")
        for p, d in zip(ps, found):
            oracle.check_packet(S, p, d)

    return h


def near(gen, schemes):
    """Four modules with related names; one argument is a bit different."""

    def h(S):
        scheme = S.pick("names", schemes)
        w = world.World(S, gen, scheme, wc=gen != "binary")
        names = list(w.md.values())
        form = S.pick(
            "change",
            ("none", "reverse", "drop", "twice", "shorter", "longer", "capital", "underscore", "letter", "space", "empty"),
        )
        i = S.choose("which", len(names))
        n = names[i]
        if form == "reverse":
            names.reverse()
        elif form == "drop":
            del names[i]
        elif form == "twice":
            names.insert(S.choose("where", 5), n)
        elif form == "shorter":
            names[i] = n[:-1]
        elif form == "longer":
            names.insert(i, n + "-")
        elif form == "capital":
            names[i] = n[0].upper() + n[1:]
        elif form == "underscore":
            names[i] = n.replace("-", "_") if "-" in n else n + "_"
        elif form == "space":
            names[i] = S.pick("space", (" " + n, n + " ", n[:1] + " " + n[1:]))
        elif form == "empty":
            names.insert(S.choose("where the empty one", 5), "")
        elif form == "letter":
            names[i] = n[:-1] + S.text("letter", 1, "ajqz0-" + n[-1])
        r = w.run(names)
        good = len(names) == 4 and all(
            any(S.truth(S.eq(x, y)) for y in names) for x in w.md.values()
        )
        if good:
            S.check(r.ok, "matching module lists are rejected")
            S.cover("accepted")
        else:
            S.check(r.rejected, "module lists differ but are accepted")
            S.check(len(r.files) == 0, "output in spite of the rejection")
            S.cover("rejected")

    return h


def harnesses(tier):
    q = tier == "quick"
    schemes = ("dashes", "hyphen", "short") if q else tuple(sorted(world.SMALL))
    out = [
        H("near-" + g, near(g, schemes), "four modules with related names, one of eleven changes of one argument", cover=("accepted", "rejected"))
        for g in ("cfs", "c", "binary")
    ]
    shapes = [(1, 1), (1, 2), (2, 1), (2, 2)] + ([] if q else [(3, 3), (2, 3), (3, 2)])
    for g in ("cfs", "c", "binary"):
        for nm, nc in shapes + ([(3, 3)] if q and g == "cfs" else []):
            cov = ("accepted", "rejected") if nm == nc else ("rejected",)
            out.append(
                H(
                    "%s-%d-%d" % (g, nm, nc),
                    bundle(g, nm, nc, (2,)),
                    "%d files, %d names, every name of 2 characters over {a, b, -}, argument over {a, b, A, -, _, blank}" % (nm, nc),
                    cover=cov,
                )
            )
        for nm, nc in ((1, 1), (2, 2)) if g == "cfs" or not q else ((1, 1),):
            out.append(
                H(
                    "%s-%d-%d-lengths" % (g, nm, nc),
                    bundle(g, nm, nc, (1, 3)),
                    "%d files, %d names of 1 or 3 characters over {a, b, -}, argument over {a, b, A, -, _, blank}" % (nm, nc),
                    cover=("accepted", "rejected"),
                )
            )
    for nm, nmsg in ((1, 1), (2, 1), (2, 2)) if q else ((1, 1), (2, 1), (2, 2), (3, 2)):
        out.append(
            H(
                "cosmos-%d-%d" % (nm, nmsg),
                cosmos(nm, nmsg, 2),
                "%d files, %d messages, every name of 2 characters" % (nm, nmsg),
                cover=("accepted", "rejected"),
            )
        )
    return out
