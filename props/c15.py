"""C15: file, guard and identifier names are the ASN.1 names with - as _."""
from symapg import asn, oracle, world
from symapg.asn import H
from symapg.core import lnot

GENS = ("cfs", "c", "binary", "cosmos")


def guard(S, f, name):
    """The guard belongs to the file: <...>_<FILE>_H_... in capitals."""
    S.check(f.guarded, "include guard")
    want = "ASN1_PARSER_" + oracle.upper(oracle.cname(name)).replace(".", "_") + "_INCLUDED"
    S.check(S.eq(f.guard, want), "name of the include guard")


def symname(S, label, n, alphabet, fixed, active, capital=False):
    if label != active:
        return fixed
    v = S.name(label, S.pick("length", n), alphabet, capital=capital)
    if capital:
        for std in STD:
            if len(std) == len(v):
                S.assume(lnot(S.eq(v, std)))
    return v


ALPHA = "abcdefghijklmnopqrstuvwxyz0123456789-"
STD = ["Float", "Double"] + [
    p + n + "-t" for p in ("Int", "Uint") for n in ("8", "16", "32", "64")
]
ASSUMPTIONS = ["structures and enumerations are not named like a standard type (see C09)"]
WHAT = ("module", "imported module", "message", "structure", "enum", "member", "inner member", "enumerator")


def names(gen, n, active):
    def h(S):
        # the fixed names are longer than the symbolic ones
        mod = symname(S, "module", n, ALPHA, "long-mod-name", active)
        imp = symname(S, "imported module", n, ALPHA, "other-mod-name", active)
        msg = symname(S, "message", n, ALPHA, "Long-msg-name", active, True)
        stn = symname(S, "structure", n, ALPHA, "Inner-type-name", active, True)
        enn = symname(S, "enum", n, ALPHA, "Enum-type-name", active, True)
        key = symname(S, "member", n, ALPHA, "outer-key-name", active)
        ink = symname(S, "inner member", n, ALPHA, "inner-key-name", active)
        lit = symname(S, "enumerator", n, ALPHA, "item-name-one", active)
        local = gen in ("c", "binary")
        en = asn.enumerated(S, enn, [(lit, None), ("second-item-name", None)])
        st = asn.sequence(
            S,
            stn,
            [
                asn.member(S, ink, asn.integer(S, 0, 255)),
                asn.member(S, "mode-key-name", asn.ref(S, en)),
            ],
        )
        far = asn.sequence(S, "Far-type-name", [asn.member(S, "far-key-name", asn.integer(S, 0, 3))])
        d = asn.sequence(
            S,
            msg,
            [
                asn.member(S, key, asn.ref(S, st), wc=[(ink, 7)]),
                asn.member(S, "last-key-name", asn.ref(S, far)),
            ],
        )
        mods = [
            (imp, asn.module(S, imp, [far])),
            (mod, asn.module(S, mod, [en, st, d], [([far], imp)])),
        ]
        r = asn.run(S, gen, mods, [mod] if gen == "cosmos" else None, messages=[msg])
        S.check(r.ok, "valid names are rejected")
        S.cover("accepted")
        if gen == "cosmos":
            S.check(len(r.files) == 1, "number of files")
            (p,) = S.cosmos(r)
            S.check(S.eq(p.name, msg), "packet name")
            want = [ink, "mode-key-name", "far-key-name"]
            S.check(len(p.items) == len(want), "number of items")
            for it, w in zip(p.items, want):
                S.check(S.eq(it.name, w), "item name")
            S.check(len(p.items[1].states) == 2, "number of states")
            S.check(S.eq(p.items[1].states[0][0], lit), "state name")
            return
        c = oracle.cname
        suf = {"cfs": "_msg.h", "c": ".h", "binary": ".h"}[gen]
        files = [c(mod) + suf, c(imp) + suf]
        if gen == "cfs":
            files += [c(mod) + "_msgids.h", c(imp) + "_msgids.h"]
        elif gen == "c":
            files += [c(mod) + ".c", c(imp) + ".c"]
        else:
            files += [oracle.lowerized(c(msg)) + ".bin"]
        S.check(len(r.files) == len(files), "number of files")
        for f in files:
            S.check(S.file(r, f) is not None, "file name")
        for m in (mod, imp):
            guard(S, S.c(r, c(m) + suf), m + suf)
            if gen == "cfs":
                guard(S, S.c(r, c(m) + "_msgids.h"), m + "_msgids.h")
        f = S.c(r, c(mod) + suf)
        local_inc = [i for i, sysinc in f.includes if not sysinc]
        S.check(len(local_inc) == 1, "number of includes")
        S.check(S.eq(local_inc[0], c(imp) + suf), "name of the included file")
        S.check(len([x for x in f.decls if x.kind != "var"]) == 3, "number of types")
        e = oracle.find(S, f.decls, c(enn))
        S.check(len(e.items) == 2 and S.eq(e.items[0].name, c(lit)), "enumerator name")
        t = oracle.find(S, f.decls, c(stn))
        S.check(len(t.members) == 2, "number of members")
        S.check(S.eq(t.members[0].name, c(ink)), "member name")
        S.check(S.eq(t.members[1].ctype, c(enn)), "type name of a member")
        t = oracle.find(S, [x for x in f.decls if x.kind != "var"], c(msg))
        S.check(len(t.members) == 2, "number of members")
        S.check(S.eq(t.members[0].name, c(key)), "member name")
        S.check(S.eq(t.members[0].ctype, c(stn)), "type name of a member")
        if gen == "cfs":
            g = S.c(r, c(mod) + "_msgids.h")
            S.check(len(g.defines) == 1, "number of macros")
            S.check(
                S.eq(g.defines[0][0], oracle.upper(c(msg) + "_" + c(ink))),
                "macro name",
            )
        elif gen == "c":
            g = S.c(r, c(mod) + ".c")
            S.check(
                len(g.includes) == 1 and S.eq(g.includes[0][0], c(mod) + ".h"),
                "include of the C file",
            )
            for x in (f, g):
                vs = x.vars()
                S.check(len(vs) == 1, "number of variables")
                S.check(S.eq(vs[0].name, oracle.lowerized(c(msg))), "variable name")
                S.check(S.eq(vs[0].ctype, c(msg)), "variable type")
            init = g.vars()[0].init
            S.check(
                len(init) == 1 and S.eq(init[0][0], c(key)), "initialiser name"
            )
            S.check(S.eq(init[0][1][0][0], c(ink)), "initialiser name")

    return h


def collide(gen, n):
    """Two modules, two messages: different names, different files."""

    def h(S):
        k = S.pick("length", n)
        what = S.pick("what", ("module", "message"))
        a = S.name("first", k, ALPHA, capital=what == "message")
        b = S.name("second", k, ALPHA, capital=what == "message")
        S.assume(lnot(S.eq(a, b)))
        m = [a, b] if what == "module" else ["m-one", "m-two"]
        t = ["Typ-one", "Typ-two"] if what == "module" else [a, b]
        mods = []
        for i in range(2):
            st = asn.sequence(S, "Hd-%d" % i, [asn.member(S, "v", asn.integer(S, 0, 255))])
            d = asn.sequence(S, t[i], [asn.member(S, "hd", asn.ref(S, st), wc=[("v", i + 1)])])
            mods.append((m[i], asn.module(S, m[i], [st, d])))
        r = asn.run(S, gen, mods)
        S.check(r.ok, "valid names are rejected")
        per = {"cfs": 2, "c": 2, "binary": 2}[gen]
        S.check(len(r.files) == 2 * per, "files overwrite each other")
        c = oracle.cname
        suf = {"cfs": "_msg.h", "c": ".h", "binary": ".h"}[gen]
        fs = [S.c(r, c(x) + suf) for x in m]
        S.check(lnot(S.eq(fs[0].guard, fs[1].guard)), "two files with one guard")
        for i in range(2):
            oracle.find(S, [x for x in fs[i].decls if x.kind != "var"], c(t[i]))
            if gen == "binary":
                data = S.file(r, oracle.lowerized(c(t[i])) + ".bin")
                S.check(data is not None and S.eq(data, bytes([i + 1])), "contents of the image")
        S.cover("two")

    return h


def large(S, w, r):
    c = oracle.cname
    if w.gen == "cosmos":
        w.check_packets(r)
        return
    w.check_types(r)
    suf = {"cfs": "_msg.h", "c": ".h", "binary": ".h"}[w.gen]
    more = {"cfs": "_msgids.h", "c": ".c"}.get(w.gen)
    n = 0
    for role, m in w.mods.items():
        f = S.c(r, c(m.name) + suf)
        guard(S, f, m.name + suf)
        inc = [x for x, system in f.includes if not system]
        want = [c(w.md[x]) + suf for x in m.uses]
        S.check(sorted(inc) == sorted(want), "name of the included file")
        if more:
            S.check(S.file(r, c(m.name) + more) is not None, "file name")
            if w.gen == "cfs":
                guard(S, S.c(r, c(m.name) + more), m.name + more)
        msgs = [d for d in m.defs if d.kind == "seq" and any(x[2] for x in d.members)]
        n += len(msgs)
        for d in msgs:
            v = oracle.lowerized(c(d.name))
            if w.gen == "c":
                oracle.find(S, f.vars(), v)
                oracle.find(S, S.c(r, c(m.name) + more).vars(), v)
            elif w.gen == "binary":
                S.check(S.file(r, v + ".bin") is not None, "file name")
            else:
                ds = S.c(r, c(m.name) + more).defines
                pre = oracle.upper(c(d.name)) + "_"
                S.check(any(x[0].startswith(pre) for x in ds), "macro name")
    k = len(w.mods)
    S.check(len(r.files) == k + (k if more else n), "number of files")


def harnesses(tier):
    q = tier == "quick"
    out = world.harnesses(GENS, large)
    for g in GENS:
        for w in WHAT:
            if g == "cosmos" and w in ("structure", "enum", "member", "imported module"):
                continue
            n = (1, 2, 3, 4, 5, 6, 8, 12, 33, 70, 130) if q else tuple(range(1, 13)) + (17, 20, 24, 31, 32, 33, 40, 64, 70, 100, 130, 260)
            out.append(
                H(
                    "%s-%s" % (w.replace(" ", "-"), g),
                    names(g, n, w),
                    "every %s name of %s characters" % (w, n),
                    cover=("accepted",),
                )
            )
        if g != "cosmos":
            n = (1, 2, 3, 6) if q else (1, 2, 3, 4, 5, 6, 8, 12, 20)
            out.append(H("collide-" + g, collide(g, n), "two names of %s characters" % (n,), cover=("two",)))
    return out
