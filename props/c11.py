"""C11: every used type name resolves to exactly one definition."""
from symapg import asn, oracle, world
from symapg.asn import H
from symapg.core import lnot

LET = "abcdef"


def T(S, label, n=1):
    return S.name(label, n, LET, capital=True)


def among(S, x, names):
    return any(S.truth(S.eq(x, y)) for y in names)


def distinct(S, names):
    return all(not among(S, a, names[:i]) for i, a in enumerate(names))


def leaf(S, name, bits=7):
    return asn.sequence(
        S, name, [asn.member(S, "v", asn.integer(S, 0, (1 << bits) - 1))]
    )


def use(S, form, name):
    """A member type that uses a name."""
    t = asn.ref(S, name)
    if form == "array":
        return asn.array(S, 3, t)
    return t


def verdict(S, gen, r, good):
    if not good:
        S.check(not r.hang, "does not terminate")
        S.check(r.rejected, "undefined or ambiguous type name is accepted")
        if not r.files:
            S.cover("rejected")
        return False
    S.check(r.ok, "well-defined bundle is rejected")
    S.cover("accepted")
    return True


def mfile(gen, name):
    return name + ("_msg.h" if gen == "cfs" else ".h")


def check_use(S, gen, r, mod, top, form):
    """The member that uses the name has the C type of that name."""
    if gen == "cosmos":
        (p,) = S.cosmos(r)
        S.check(len(p.items) == 2 or form == "array", "number of items")
        return
    f = S.c(r, mfile(gen, mod))
    st = oracle.find(S, f.decls, oracle.cname(top.name))
    S.check(len(st.members) == 2, "number of members")
    S.check(S.eq(st.members[0].ctype, oracle.cname(top.used)), "member type")
    S.check((st.members[0].array is not None) == (form == "array"), "array")


def top_type(S, name, form, used, at=0):
    ms = [
        asn.member(S, "u", use(S, form, used)),
        asn.member(S, "n", asn.integer(S, 0, 7)),
    ]
    d = asn.sequence(S, name, ms, kind="CHOICE" if form == "choice" else "SEQUENCE")
    d.used = used
    return d


def local(gen, lengths, forms=("plain", "array", "choice")):
    """One module: three names defined, one used."""

    def h(S):
        form = S.pick("form", forms)
        if gen == "cosmos":
            S.assume(form == "plain")
        a = T(S, "top", S.pick("top length", lengths))
        b = T(S, "leaf", S.pick("leaf length", lengths))
        c = T(S, "other", S.pick("other length", lengths))
        u = T(S, "used", S.pick("used length", lengths))
        top = top_type(S, a, form, u)
        kind = S.pick("other kind", ("simple", "enum"))
        if kind == "simple":
            other = asn.simple(S, c, asn.integer(S, 0, 255))
        else:
            other = asn.enumerated(S, c, [("p", None), ("q", None)])
        defs = [top, leaf(S, b), other]
        if S.flag("top last"):
            defs = defs[1:] + defs[:1]
        r = asn.run(
            S, gen, [("m", asn.module(S, "m", defs))], ["m"], messages=[a]
        )
        # a structure that contains itself is rejected, too (C13)
        good = distinct(S, [a, b, c]) and among(S, u, [b, c])
        if verdict(S, gen, r, good) and form != "choice":
            if S.truth(S.eq(u, b)):
                check_use(S, gen, r, "m", top, form)

    return h


def imported(gen):
    """A module imports a name from a module."""

    def h(S):
        lib = S.name("library", 1, "mlk")
        src = S.name("import from", 1, "mlk")
        S.assume(lnot(S.eq(lib, "m")))
        a, b = T(S, "top"), T(S, "own")
        l1, l2 = T(S, "lib one"), T(S, "lib two")
        i = T(S, "imported")
        u = T(S, "used")
        form = "array" if gen != "cosmos" and S.flag("array") else "plain"
        top = top_type(S, a, form, u)
        mods = [
            ("m", asn.module(S, "m", [top, leaf(S, b)], [([i], src)])),
            (lib, asn.module(S, lib, [leaf(S, l1, 3), leaf(S, l2, 5)])),
        ]
        order = [1, 0] if S.flag("other order") else [0, 1]
        names = ["m"] if gen == "cosmos" else ["m", lib]
        r = asn.run(S, gen, mods, names, messages=[a], order=order)
        good = (
            S.truth(S.eq(src, lib))
            and distinct(S, [a, b, l1, l2])
            and among(S, i, [l1, l2])
            and among(S, u, [b, i])
        )
        if verdict(S, gen, r, good):
            check_use(S, gen, r, "m", top, form)

    return h


def chain(gen):
    """m imports from l or k, l imports from k or m: nothing is passed on."""

    def h(S):
        k1, k2, l1, own = "A", "B", "C", "D"

        def name(label):
            return S.name(label, 1, "abcd", capital=True)

        i1, i2 = name("m imports"), name("l imports")
        src1 = S.pick("m imports from", ("l", "k"))
        src2 = S.pick("l imports from", ("k", "m", "x"))
        u, v = name("m uses"), name("l uses")
        S.assume(lnot(S.eq(v, l1)))  # recursion is the subject of C13
        dup = S.flag("second definition")
        dk = [leaf(S, k1), leaf(S, k2)]
        dl = top_type(S, l1, "plain", v)
        dm = [top_type(S, "Msg", "plain", u), leaf(S, own)]
        again = None
        if dup:
            again = S.name("defined again", 1, "abcde", capital=True)
            dm.append(leaf(S, again))
        mods = [
            ("m", asn.module(S, "m", dm, [([i1], src1)])),
            ("l", asn.module(S, "l", [dl], [([i2], src2)])),
            ("k", asn.module(S, "k", dk)),
        ]
        r = asn.run(
            S,
            gen,
            mods,
            ["m"] if gen == "cosmos" else None,
            messages=["Msg"],
        )
        of = {"l": [l1], "k": [k1, k2], "m": [own]}
        if dup and not among(S, again, [k1, k2, l1, own]):
            of["m"].append(again)
            dup = False
        good = (
            not dup
            and (src2 == "k" or (src2 == "m" and src1 == "k"))
            and among(S, i1, of[src1])
            and among(S, i2, of[src2])
            and among(S, u, of["m"] + [i1])
            and among(S, v, [i2])
        )
        verdict(S, gen, r, good)

    return h


def missing(gen):
    """The imported module is not part of the input."""

    def h(S):
        src = S.name("import from", 2, "ab-")
        have = S.name("present", 2, "ab-")
        third = S.flag("chain")
        S.assume(lnot(S.eq(src, "m")))
        S.assume(lnot(S.eq(have, "m")))
        lf = leaf(S, "Leaf")
        top = top_type(S, "Msg", "plain", "Leaf")
        mods = [
            ("m", asn.module(S, "m", [top], [([lf], src)])),
            (have, asn.module(S, have, [lf])),
        ]
        names = ["m"] if gen == "cosmos" else ["m", have]
        if third:
            S.assume(lnot(S.eq(have, "zz")))
            mods.append(
                ("zz", asn.module(S, "zz", [leaf(S, "Zed")]))
            )
            if gen != "cosmos":
                names.append("zz")
            S.assume(lnot(S.eq(src, "zz")))
        r = asn.run(S, gen, mods, names, messages=["Msg"])
        verdict(S, gen, r, S.truth(S.eq(src, have)))

    return h


def multi(gen):
    """Several imported names, one or several import clauses."""

    def h(S):
        n1, n2, n3 = T(S, "imp one"), T(S, "imp two"), T(S, "imp three")
        form = S.pick("clauses", ("one", "two", "two modules"))
        la, lb, lc = leaf(S, "A"), leaf(S, "B", 3), leaf(S, "C", 4)
        top = asn.sequence(
            S,
            "Msg",
            [
                asn.member(S, "u", asn.ref(S, "A")),
                asn.member(S, "v", asn.ref(S, "B")),
            ],
        )
        if form == "one":
            imps = [([n1, n2, n3], "l")]
        elif form == "two":
            imps = [([n1, n2], "l"), ([n3], "l")]
        else:
            imps = [([n1, n2], "l"), ([n3], "k")]
        mods = [
            ("m", asn.module(S, "m", [top], imps)),
            ("l", asn.module(S, "l", [la, lb] if form == "two modules" else [la, lb, lc])),
        ]
        if form == "two modules":
            mods.append(("k", asn.module(S, "k", [lc])))
        r = asn.run(
            S,
            gen,
            mods,
            ["m"] if gen == "cosmos" else None,
            messages=["Msg"],
        )
        if form == "two modules":
            good = among(S, n1, ["A", "B"]) and among(S, n2, ["A", "B"]) and among(S, n3, ["C"])
        else:
            good = all(among(S, n, ["A", "B", "C"]) for n in (n1, n2, n3))
        names = [n1, n2, n3]
        good = good and among(S, "A", names) and among(S, "B", names)
        verdict(S, gen, r, good)

    return h


def anywhere(gen, kinds, variants):
    """One reference of a large bundle names something else."""
    count = world.count_sites(gen)

    def h(S):
        scheme, form, rev = S.pick("names, change, reverse", variants)
        mut, st = world.mutation(S, [k for k in kinds if k in count], count, form)
        w = world.World(S, gen, scheme, rev, mut=mut)
        r = w.run()
        old, new = st["changed"]
        S.check(not r.hang, "does not terminate")
        if S.truth(S.eq(old, new)):
            S.check(r.ok, "well-defined bundle is rejected")
            S.cover("accepted")
            return
        defined = [d.name for m in w.mods.values() for d in m.defs]
        if new in defined or new in w.md.values():
            return  # another type, perhaps a valid one
        S.check(r.rejected, "undefined or ambiguous type name is accepted")
        S.check(len(r.files) == 0, "output in spite of the rejection")
        S.cover("rejected")

    return h


def unused(gen):
    """A definition that nothing else uses names a type."""

    def h(S):
        form = S.pick("form", ("plain", "array", "choice"))
        where = S.pick("where", ("requested module", "imported module", "other module"))
        u = T(S, "used", 2)
        msg = asn.sequence(S, "Msg", [asn.member(S, "v", asn.integer(S, 0, 255))])
        lf = asn.sequence(S, "Ab", [asn.member(S, "v", asn.integer(S, 0, 255))])
        lib = asn.sequence(S, "Lib", [asn.member(S, "v", asn.integer(S, 0, 255))])
        user = asn.sequence(S, "User", [asn.member(S, "l", asn.ref(S, lib))])
        far = asn.sequence(S, "Far", [asn.member(S, "v", asn.integer(S, 0, 255))])
        bad = top_type(S, "Top", form, u)
        m, l, o = [msg, user], [lib], [far]
        dest = {"requested module": m, "imported module": l, "other module": o}[where]
        dest.append(lf)
        dest.insert(S.pick("at", (0, 2)), bad)
        mods = [
            ("m", asn.module(S, "m", m, [(["Lib"], "l")])),
            ("l", asn.module(S, "l", l)),
            ("o", asn.module(S, "o", o)),
        ]
        r = asn.run(S, gen, mods, ["m"] if gen == "cosmos" else None, messages=["Msg"])
        S.check(not r.hang, "does not terminate")
        if S.truth(S.eq(u, "Ab")):
            S.check(r.ok, "well-defined bundle is rejected")
            S.cover("accepted")
            return
        S.check(r.rejected, "undefined or ambiguous type name is accepted")
        S.check(len(r.files) == 0, "output in spite of the rejection")
        S.cover("rejected")

    return h


KINDS = ("seq", "enum", "simple", "choice")


def twice(gen):
    """Two definitions of one name: any kinds, comments, places."""

    def h(S):
        n = S.name("second name", 3, "dup", capital=True)
        defs = []
        for i, name in enumerate(("Dup", n)):
            k = S.pick("kind %d" % i, KINDS)
            cm = "some text" if S.flag("comment %d" % i) else None
            if k == "seq":
                d = asn.sequence(S, name, [asn.member(S, "v", asn.integer(S, 0, 255))], cm)
            elif k == "choice":
                d = asn.sequence(S, name, [asn.member(S, "v", asn.integer(S, 0, 255))], cm, "CHOICE")
            elif k == "enum":
                d = asn.enumerated(S, name, [("i%d" % i, None)], cm)
            else:
                d = asn.simple(S, name, asn.integer(S, 0, 255), cm)
            defs.append(d)
        other = [leaf(S, "One"), leaf(S, "Two"), leaf(S, "Three")]
        place = S.pick("place", ("one module", "two modules", "first and last"))
        if place == "one module":
            mods = [[defs[0], other[0], defs[1]], [other[1]], [other[2]]]
        elif place == "two modules":
            mods = [[defs[0], other[0]], [other[1], defs[1]], [other[2]]]
        else:
            mods = [[defs[0], other[0]], [other[1]], [defs[1], other[2]]]
        mods = [(x, asn.module(S, x, d)) for x, d in zip(("ma", "mb", "mc"), mods)]
        r = asn.run(S, gen, mods, ["ma"] if gen == "cosmos" else None, messages=["One"])
        if not S.truth(S.eq(n, "Dup")):
            S.check(r.ok, "well-defined bundle is rejected")
            S.cover("accepted")
            return
        S.check(r.rejected, "undefined or ambiguous type name is accepted")
        S.check(len(r.files) == 0, "output in spite of the rejection")
        S.cover("rejected")

    return h


def harnesses(tier):
    q = tier == "quick"
    out = []
    for g in ("cfs", "cosmos", "c", "binary"):
        for k in ("type", "import", "import module"):
            out.append(
                H(
                    "anywhere-%s-%s" % (k.replace(" ", "-"), g),
                    anywhere(g, (k,), world.variants(q, world.FEW if g in ("cfs", "cosmos") else (("plain", "other", True),))),
                    "any %s reference of a bundle of four modules shortened, extended or with any last letter" % k,
                    cover=("accepted", "rejected"),
                )
            )
        out.append(H("unused-" + g, unused(g), "a definition that nothing uses, in one of three modules, names a type with any name of 2 characters", cover=("accepted", "rejected")))
        out.append(H("twice-" + g, twice(g), "two definitions of any kinds with any names of 3 characters, with and without comments, in one of three modules", cover=("accepted", "rejected")))
    cov = ("accepted", "rejected")
    for g in ("cfs", "cosmos", "c", "binary"):
        main = g in ("cfs", "cosmos") or not q
        out.append(H("local-" + g, local(g, (1,)), "one module, 3 defined names and a used one, all names over 6 letters", cover=cov))
        if g == "cfs" or not q:
            out.append(H("lengths-" + g, local(g, (1, 2), ("plain",) if q else ("plain", "array")), "as local, names of 1 or 2 characters", cover=cov))
        if main:
            out.append(H("imported-" + g, imported(g), "two modules, all type and module names symbolic", cover=cov))
            out.append(H("multi-" + g, multi(g), "three imported names in one or two clauses", cover=cov))
            out.append(H("chain-" + g, chain(g), "three modules, who imports and uses what", cover=cov))
        out.append(H("missing-" + g, missing(g), "imported module present or not, names of 2 characters", cover=cov))
    return out
