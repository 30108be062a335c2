"""C13: types are declared before use, completely, or the input is rejected."""
from symapg import asn, oracle, world
from symapg.asn import H
from symapg.core import land, lnot, lor

ASSUMPTIONS = [
    "a run that executes more than 60000 instrumented loop iterations counts as not terminating;"
    " the verdict is confirmed by the real program running into a 20 s limit"
]


def closure(n, edge):
    """reach[i][j]: j can be reached from i in one or more steps."""
    r = [[edge(i, j) for j in range(n)] for i in range(n)]
    for k in range(n):
        r = [
            [lor(r[i][j], land(r[i][k], r[k][j])) for j in range(n)]
            for i in range(n)
        ]
    return r


def judge(S, r, bad):
    S.check(not r.hang, "does not terminate")
    if r.ok:
        S.check(lnot(bad), "recursive input is accepted")
        S.cover("accepted")
        return True
    S.check(bad, "input without recursion is rejected")
    S.cover("rejected")
    return False


def check_order(S, f, defs, used):
    """Every definition once, after everything it uses."""
    decls = [d for d in f.decls]
    S.check(len(decls) == len(defs), "number of definitions")
    for d in defs:
        oracle.find(S, decls, oracle.cname(d))
    for i, d in enumerate(decls):
        if d.kind != "struct":
            continue
        for m in d.members:
            ok = [S.eq(m.ctype, x.name) for x in decls[:i]]
            ok += [S.eq(m.ctype, x) for x in ("uint8_t", "uint16_t")]
            S.check(lor(*ok), "type is used before its definition")


def types(gen, ks, leafkind, forms=("plain", "array"), rev=True):
    """Structures with ks[i] members of symbolic type, and a leaf type."""
    n = len(ks)

    def h(S):
        letters = "abcde"[:n] + "l"
        names = [c.upper() for c in letters[:n]]
        if rev and S.flag("names in reverse"):
            names.reverse()
        form = "plain" if gen == "cosmos" else S.pick("form", forms)
        kind = S.pick("leaf", leafkind)
        t = [
            [S.name("type %d %d" % (i, j), 1, letters, capital=True) for j in range(ks[i])]
            for i in range(n)
        ]
        defs = []
        for i in range(n):
            ms = []
            for j in range(ks[i]):
                typ = asn.ref(S, t[i][j])
                if form == "array" and j == 0:
                    typ = asn.array(S, 2, typ)
                ms.append(asn.member(S, "m%d" % j, typ))
            defs.append(asn.sequence(S, names[i], ms))
        if kind == "simple":
            leaf = asn.simple(S, "L", asn.integer(S, 0, 255))
        elif kind == "enum":
            leaf = asn.enumerated(S, "L", [("p", None), ("q", None)])
        else:
            leaf = asn.sequence(
                S, "L", [asn.member(S, "v", asn.integer(S, 0, 255))]
            )
        defs.append(leaf)
        mod = asn.module(S, "m", defs)
        r = asn.run(S, gen, [("m", mod)], ["m"], messages=[names[0]])
        edge = lambda i, j: lor(*[S.eq(x, names[j]) for x in t[i]])
        reach = closure(n, edge)
        if gen == "cosmos":
            bad = lor(
                reach[0][0],
                *[land(reach[0][j], reach[j][j]) for j in range(1, n)]
            )
        else:
            bad = lor(*[reach[i][i] for i in range(n)])
        if not judge(S, r, bad):
            return
        if gen == "cosmos":
            (p,) = S.cosmos(r)
            S.check(len(p.items) >= ks[0], "number of items")
            return
        f = S.c(r, "m_msg.h" if gen == "cfs" else "m.h")
        want = names + ([] if kind == "simple" else ["L"])
        check_order(S, f, want, t)

    return h


def modules(gen, n, selfloops):
    """n modules, every import graph."""

    def h(S):
        names = ["mod-" + c for c in "abcd"[:n]]
        if S.flag("names in reverse"):
            names.reverse()
        e = [
            [
                S.flag("%d imports %d" % (i, j))
                if i != j or selfloops
                else False
                for j in range(n)
            ]
            for i in range(n)
        ]
        mods, defs = [], []
        for i in range(n):
            ms = [asn.member(S, "v", asn.integer(S, 0, 255))]
            for j in range(n):
                if e[i][j] and i != j:
                    ms.append(asn.member(S, "u%d" % j, asn.ref(S, "T%d" % j)))
            d = asn.sequence(S, "T%d" % i, ms)
            defs.append(d)
            imps = [(["T%d" % j], names[j]) for j in range(n) if e[i][j]]
            mods.append((names[i], asn.module(S, names[i], [d], imps)))
        r = asn.run(
            S,
            gen,
            mods,
            [names[0]] if gen == "cosmos" else None,
            messages=["T0"],
        )
        reach = closure(n, lambda i, j: e[i][j])
        bad = any(reach[i][i] for i in range(n))
        if not judge(S, r, bool(bad)):
            return
        for i in range(n):
            nm = oracle.cname(names[i])
            f = S.c(r, nm + ("_msg.h" if gen == "cfs" else ".h"))
            st = oracle.find(S, f.decls, "T%d" % i)
            S.check(len(st.members) == len(defs[i].members), "members")

    return h


def ordered(S, w, r):
    """A large bundle: everything once, after what it uses."""
    w.check_types(r)
    for role, m in w.mods.items():
        f = w.hfile(r, role)
        decls = [d for d in f.decls if d.kind != "var"]
        here = [oracle.cname(d.name) for d in m.defs if d.kind in ("seq", "enum")]
        for i, d in enumerate(decls):
            for x in d.members if d.kind == "struct" else ():
                if x.ctype in here:
                    S.check(
                        x.ctype in [y.name for y in decls[:i]],
                        "type is used before its definition",
                    )


def named(gen, lengths):
    """A chain of four types, one from another module, with any names."""

    def h(S):
        names = []
        for i in range(3):
            n = S.name("name %d" % i, S.pick("length %d" % i, lengths), "abc-", capital=True)
            S.assume(land(*[lnot(S.eq(n, x)) for x in names]))
            names.append(n)
        where = S.pick("imported", ("none", "first", "last"))
        kind = S.pick("leaf", ("seq", "enum", "simple"))
        if kind == "seq":
            leaf = asn.sequence(S, names[0], [asn.member(S, "v", asn.integer(S, 0, 255))])
        elif kind == "enum":
            leaf = asn.enumerated(S, names[0], [("p", None), ("q", None)])
        else:
            leaf = asn.simple(S, names[0], asn.integer(S, 0, 255))
        mid = asn.sequence(S, names[1], [asn.member(S, "l", asn.ref(S, leaf))])
        top = asn.sequence(
            S,
            names[2],
            [asn.member(S, "m", asn.ref(S, mid)), asn.member(S, "l", asn.ref(S, leaf))],
        )
        other = asn.sequence(S, "Zother", [asn.member(S, "v", asn.integer(S, 0, 255))])
        defs = [top, mid, leaf] if S.flag("top first") else [leaf, mid, top]
        lib = [other]
        imps = []
        if where == "first":
            defs.remove(leaf)
            lib.append(leaf)
            imps = [([leaf], "lib")]
        elif where == "last":
            defs.append(asn.sequence(S, "Zuser", [asn.member(S, "o", asn.ref(S, other))]))
            imps = [([other], "lib")]
        mods = [("m", asn.module(S, "m", defs, imps)), ("lib", asn.module(S, "lib", lib))]
        r = asn.run(S, gen, mods, ["m"] if gen == "cosmos" else None, messages=[names[2]])
        S.check(r.ok, "input without recursion is rejected")
        S.cover("accepted")
        if gen == "cosmos":
            (p,) = S.cosmos(r)
            oracle.check_packet(S, p, top)
            return
        f = S.c(r, "m_msg.h" if gen == "cfs" else "m.h")
        want = [d for d in defs if d.kind != "simple"]
        S.check(len(f.decls) == len(want), "number of definitions")
        seen = []
        for d in f.decls:
            for x in d.members if d.kind == "struct" else ():
                for y in want:
                    if S.truth(S.eq(x.ctype, oracle.cname(y.name))):
                        S.check(
                            lor(*[S.eq(x.ctype, z) for z in seen]),
                            "type is used before its definition",
                        )
            seen.append(d.name)
        for d in want:
            oracle.find(S, f.decls, oracle.cname(d.name))
            if d.kind == "seq":
                oracle.check_struct(S, f, d)

    return h


def shuffle(n, order):
    ks = list(range(n))
    if order == "backward":
        ks.reverse()
    elif order == "scattered":
        ks.sort(key=lambda k: (k * 7 % 11, -k))
    return ks


ORDERS = ("forward", "backward", "scattered")


def long_chain(gen, sizes):
    """Many types, each of which uses the next; the last one any of them."""

    def h(S):
        n = S.pick("types", sizes)
        order = S.pick("order", ORDERS)
        name = lambda k: "ABCDEFGH"[k // 8] + "abcdefgh"[k % 8]
        end = S.pick("back to", ("leaf", "any" if n <= 24 else "first"))
        to = "Leaf"
        if end == "any":
            to = S.name("used by the last", 2, "abcdefgh", capital=True)
            S.assume(lor(*[S.eq(to, name(k)) for k in range(n)]))
        elif end == "first":
            to = name(0)
        fan = S.flag("all use the leaf")
        leaf = asn.sequence(S, "Leaf", [asn.member(S, "v", asn.integer(S, 0, 255))])
        defs = []
        for k in range(n):
            ms = [asn.member(S, "next", asn.ref(S, name(k + 1) if k < n - 1 else to))]
            if fan or k == n - 1:
                ms.append(asn.member(S, "lf", asn.ref(S, leaf)))
            defs.append(asn.sequence(S, name(k), ms))
        text = [defs[k] for k in shuffle(n, order)]
        text.insert(n // 2 if fan else n, leaf)
        r = asn.run(S, gen, [("m", asn.module(S, "m", text))], ["m"], messages=[name(0)])
        if not judge(S, r, end != "leaf"):
            return
        if gen == "cosmos":
            (p,) = S.cosmos(r)
            S.check(len(p.items) == (n + 1 if fan else 2), "number of items")
            return
        decls = S.c(r, "m_msg.h" if gen == "cfs" else "m.h").decls
        S.check(len(decls) == n + 1, "number of definitions")
        names = [d.name for d in decls]
        S.check(set(names) == {d.name for d in text}, "definitions")
        for i, d in enumerate(decls):
            S.check(all(m.ctype == "uint8_t" or m.ctype in names[:i] for m in d.members), "type is used before its definition")

    return h


def module_chain(gen, sizes):
    """Many modules, each of which imports from the next."""

    def h(S):
        n = S.pick("modules", sizes)
        order = S.pick("order", ORDERS)
        back = S.pick("the last imports from", ("none", "first", "middle", "itself"))
        k0 = {"none": None, "first": 0, "middle": n // 2, "itself": n - 1}[back]
        name = lambda k: "m-" + "abcdefgh"[k * 3 % 8] + "abcdefgh"[k // 8]
        mods = []
        for k in range(n):
            to = k + 1 if k < n - 1 else k0
            ms = [asn.member(S, "v", asn.integer(S, 0, 255))]
            imps = []
            if to is not None:
                ms.append(asn.member(S, "u", asn.ref(S, "T%d" % to)))
                imps = [(["T%d" % to], name(to))]
            mods.append((name(k), asn.module(S, name(k), [asn.sequence(S, "T%d" % k, ms)], imps)))
        mods = [mods[k] for k in shuffle(n, order)]
        r = asn.run(S, gen, mods, [name(0)] if gen == "cosmos" else None, messages=["T0"])
        if not judge(S, r, k0 is not None):
            return
        if gen == "cosmos":
            (p,) = S.cosmos(r)
            S.check(len(p.items) == n, "number of items")
            return
        for k in range(n):
            f = S.c(r, oracle.cname(name(k)) + ("_msg.h" if gen == "cfs" else ".h"))
            st = oracle.find(S, f.decls, "T%d" % k)
            S.check(len(st.members) == (2 if k < n - 1 else 1), "members")

    return h


def harnesses(tier):
    q = tier == "quick"
    out = world.harnesses(("cfs", "c", "binary"), ordered)
    for g in ("cfs", "c", "binary", "cosmos"):
        if q and g in ("c", "binary"):
            continue
        out.append(H("named-" + g, named(g, (1, 3) if q else (1, 2, 3, 5)), "a chain of three types with any names of 1 to 3 characters over {a, b, c, -}", cover=("accepted",)))
    cov = ("accepted", "rejected")
    kinds = ("simple", "enum", "seq")

    def add(name, fn, bounds):
        out.append(H(name, fn, bounds, cover=cov))

    sizes = (9, 40) if q else (4, 5, 9, 17, 33, 64)
    msizes = (6, 20) if q else (4, 5, 9, 17, 33)
    for g in ("cfs", "c", "binary", "cosmos"):
        z = sizes[:1] if q and g in ("c", "binary") else sizes
        add("long-" + g, long_chain(g, z), "a chain of %s types in three orders, the last one uses any of them" % (z,))
        z = msizes[:1] if q and g in ("c", "binary") else msizes
        add("imports-" + g, module_chain(g, z), "a chain of %s modules in three orders, closed in three ways or not" % (z,))

    for g in ("cfs", "c", "binary", "cosmos"):
        cos = g == "cosmos"
        add(
            "types-2-" + g,
            types(g, (2, 2), ("simple",) if q and cos else kinds, rev=not (q and cos)),
            "2 structures with 2 members each of any of the types, leaf of 3 kinds",
        )
        if q:
            if g in ("cfs", "cosmos"):
                ks = (2, 1, 1) if cos else (2, 2, 1)
                add(
                    "types-3-" + g,
                    types(g, ks, ("simple",), ("plain",), False),
                    "3 structures with %s members of any of the types" % (ks,),
                )
        else:
            add(
                "types-3-" + g,
                types(g, (2, 2, 1) if cos else (2, 2, 2), ("enum",), ("plain",) if g in ("c", "binary") else ("plain", "array"), not cos),
                "3 structures with 2 members each of any of the types",
            )
            add(
                "types-4-" + g,
                types(g, (1, 1, 1, 1), ("seq",), ("plain",) if cos else ("plain", "array"), not cos),
                "4 structures with 1 member each",
            )
        if not cos:
            n = 3
            add("modules-%d-%s" % (n, g), modules(g, n, not q), "every import graph of %d modules" % n)
            if not q and g == "cfs":
                add("modules-4-" + g, modules(g, 4, False), "every import graph of 4 modules")
    return out
