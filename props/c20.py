"""C20: every generated C header is self-contained."""
from symapg import asn, oracle, world
from symapg.asn import H

ASSUMPTIONS = [
    "a type counts as visible when it is defined earlier in the file or anywhere in a header reached through #include",
]
STD = oracle.UINT + oracle.INT
PLAIN = ("float", "double", "char")
SUF = {"cfs": "_msg.h", "c": ".h", "binary": ".h"}


def visible(S, parsed, name, seen):
    """The types a header provides, with what it includes."""
    out = []
    for k, f in parsed:
        if S.truth(S.eq(k, name)):
            if k in seen:
                return []
            seen.add(k)
            for inc, system in f.includes:
                if not system:
                    out += visible(S, parsed, inc, seen)
            out += [d.name for d in f.decls if d.kind in ("struct", "enum")]
    return out


def is_one_of(S, x, names):
    return any(S.truth(S.eq(x, n)) for n in names)


def judge(S, gen, r, mods, imports):
    """mods: module names; imports: name -> list of names."""
    hs = [k for k in r.files if k.endswith(".h")]
    parsed = [(k, S.c(r, k)) for k in hs]
    guards = []
    for k, f in parsed:
        S.check(f.guarded, "header without an include guard")
        S.check(not is_one_of(S, f.guard, guards), "two headers share an include guard")
        guards.append(f.guard)
    files = parsed + [(k, S.c(r, k)) for k in r.files if k.endswith(".c")]
    for k, f in files:
        std = False
        known = []
        for inc, system in f.includes:
            if system:
                std = std or inc == "stdint.h"
                continue
            S.check(S.file(r, inc) is not None, "included file is not generated")
            S.check(not S.truth(S.eq(inc, k)), "header includes itself")
            known += visible(S, parsed, inc, set())
        for d in f.decls:
            if d.kind == "var":
                S.check(is_one_of(S, d.ctype, known), "type of a variable is not visible")
                continue
            for m in d.members if d.kind == "struct" else ():
                if is_one_of(S, m.ctype, STD):
                    S.check(std, "<stdint.h> is missing")
                elif not is_one_of(S, m.ctype, PLAIN):
                    S.check(is_one_of(S, m.ctype, known), "type of a member is not visible")
            S.check(not is_one_of(S, d.name, known), "type is defined twice")
            known.append(d.name)
    for m in mods:
        f = S.c(r, oracle.cname(m) + SUF[gen])
        for i in imports[m]:
            S.check(
                is_one_of(S, oracle.cname(i) + SUF[gen], [n for n, s in f.includes if not s]),
                "header of an imported module is not included",
            )
        if gen == "c":
            c = S.c(r, oracle.cname(m) + ".c")
            if c.decls:
                S.check(
                    is_one_of(S, oracle.cname(m) + ".h", [n for n, s in c.includes if not s]),
                    "the C file does not include its header",
                )


KINDS = (
    "uint",
    "bits",
    "int",
    "bool",
    "float",
    "double",
    "string",
    "enum",
    "array",
    "simple",
    "simple bool",
    "simple real",
    "std",
    "nothing",
)


def member(S, kind, key, lib):
    """One member; lib: shared definitions by kind."""
    t = {
        "uint": lambda: asn.integer(S, 0, S.int("hi " + key, 128, 255)),
        "bits": lambda: asn.integer(S, 0, S.int("hi " + key, 1, 7)),
        "int": lambda: asn.integer(S, S.int("lo " + key, -128, -1), 5),
        "bool": lambda: asn.boolean(S),
        "float": lambda: asn.real(S, -1.0, 1.0),
        "double": lambda: asn.real(S, -1.0e300, 1.0),
        "string": lambda: asn.string(S, S.int("length " + key, 1, 100)),
        "enum": lambda: asn.ref(S, lib["enum"]),
        "array": lambda: asn.array(S, 3, asn.ref(S, lib["octet"])),
        "octet": lambda: asn.ref(S, lib["octet"]),
        "simple": lambda: asn.ref(S, lib["simple"]),
        "simple bool": lambda: asn.ref(S, lib["simple bool"]),
        "simple real": lambda: asn.ref(S, lib["simple real"]),
        "std": lambda: asn.ref(S, lib["std"]),
        "point": lambda: asn.ref(S, lib["point"]),
    }[kind]()
    return asn.member(S, key, t)


def library(S, suffix=""):
    lib = {
        "enum": asn.enumerated(S, "Mode" + suffix, [("off" + suffix, None), ("on" + suffix, None)]),
        "octet": asn.simple(S, "Octet" + suffix, asn.integer(S, 0, 255)),
        "simple": asn.simple(S, "Small" + suffix, asn.integer(S, 0, 7)),
        "simple bool": asn.simple(S, "Switch" + suffix, asn.boolean(S)),
        "simple real": asn.simple(S, "Temp" + suffix, asn.real(S, -5.0, 5.0)),
        "point": asn.sequence(S, "Point" + suffix, [asn.member(S, "f", asn.real(S, -1.0, 1.0))]),
    }
    if not suffix:
        lib["std"] = asn.simple(S, "Int16-t", asn.integer(S, -32768, 32767))
    return lib


def kinds(gen, place):
    """Two members of any kinds; their types are local or imported."""

    def h(S):
        lib = library(S)
        used = []
        ms = []
        for i in range(2):
            k = S.pick("kind %d" % i, KINDS + ("point",))
            if k != "nothing":
                ms.append(member(S, k, "k%d" % i, lib))
                used.append(k)
        if not ms:
            ms.append(member(S, "float", "z", lib))
        msg = asn.sequence(S, "Msg", ms)
        defs = list(lib.values())
        if place == "local":
            mods = [("m-one", asn.module(S, "m-one", [msg] + defs))]
            imports = {"m-one": []}
        else:
            # an import without a use is an import all the same
            mods = [
                ("m-one", asn.module(S, "m-one", [msg], [(defs, "lib-x")])),
                ("lib-x", asn.module(S, "lib-x", defs)),
            ]
            imports = {"m-one": ["lib-x"], "lib-x": []}
        r = asn.run(S, gen, mods)
        S.check(r.ok, "valid input is rejected")
        judge(S, gen, r, [n for n, _ in mods], imports)
        S.cover("judged")

    return h


def graphs(gen, n, full):
    """n modules, every acyclic import graph, several imported types."""

    def h(S):
        names = ["mo-" + "abcd"[i] for i in range(n)]
        if S.flag("names in reverse"):
            names.reverse()
        libs = [library(S, "abcd"[i]) for i in range(n)]
        mods, imports = [], {}
        for i in range(n):
            ms = [asn.member(S, "v", asn.real(S, 0.0, 1.0))]
            imps = []
            imports[names[i]] = []
            for j in range(i):
                k = S.pick("%d imports from %d" % (i, j), ("nothing", "point", "octet") + (("enum",) if full else ()))
                if k == "nothing":
                    continue
                ms.append(member(S, k, "u%d" % j, libs[j]))
                imps.append(([libs[j][k]], names[j]))
                imports[names[i]].append(names[j])
            wc = None
            own = asn.sequence(S, "Own-" + "abcd"[i], [asn.member(S, "num", asn.integer(S, 0, 255))])
            if S.flag("%d has a message" % i) if full else i != 1:
                wc = [("num", S.int("value %d" % i, 0, 255))]
            ms.append(asn.member(S, "own", asn.ref(S, own), wc))
            d = asn.sequence(S, "Msg-" + "abcd"[i], ms)
            mods.append((names[i], asn.module(S, names[i], [d, own] + [libs[i][k] for k in ("point", "enum", "octet")], imps)))
        if S.flag("files in reverse"):
            mods.reverse()
        r = asn.run(S, gen, mods)
        S.check(r.ok, "valid input is rejected")
        judge(S, gen, r, names, imports)
        S.cover("judged")

    return h


def splits(gen):
    """The types of one module are imported by several IMPORTS clauses."""

    def h(S):
        lib = library(S)
        ms = [
            member(S, "point", "ka", lib),
            member(S, "enum", "kb", lib),
            member(S, "simple", "kc", lib),
        ]
        names = ["point", "enum", "simple"]
        groups = S.pick("groups", ([[0, 1, 2]], [[0], [1, 2]], [[0, 1], [2]], [[0], [1], [2]], [[2], [0, 1]]))
        imps = [([lib[names[i]] for i in g], "lib") for g in groups]
        mods = [
            ("m", asn.module(S, "m", [asn.sequence(S, "Msg", ms)], imps)),
            ("lib", asn.module(S, "lib", list(lib.values()))),
        ]
        r = asn.run(S, gen, mods)
        S.check(r.ok, "valid input is rejected")
        judge(S, gen, r, ["m", "lib"], {"m": ["lib"], "lib": []})
        S.cover("judged")

    return h


def named(gen, n):
    """File and include names belong together for any module name."""

    def h(S):
        a = S.name("importing", n, "ab-1")
        b = S.name("imported", n, "ab-1")
        S.assume(not S.truth(S.eq(a, b)))
        lib = library(S)
        ms = [member(S, "point", "p", lib), member(S, "simple", "q", lib)]
        mods = [
            (a, asn.module(S, a, [asn.sequence(S, "Msg", ms)], [([lib["point"], lib["simple"]], b)])),
            (b, asn.module(S, b, list(lib.values()))),
        ]
        r = asn.run(S, gen, mods)
        S.check(r.ok, "valid input is rejected")
        judge(S, gen, r, [a, b], {a: [b], b: []})
        S.cover("judged")

    return h


def large(S, w, r):
    judge(
        S,
        w.gen,
        r,
        list(w.md.values()),
        {m.name: [w.md[x] for x in m.uses] for m in w.mods.values()},
    )


def harnesses(tier):
    q = tier == "quick"
    out = world.harnesses(("cfs", "c", "binary"), large)
    for g in ("cfs", "c", "binary"):
        for place in ("local", "imported"):
            if q and g != "cfs" and place == "local":
                continue
            out.append(
                H(
                    "kinds-%s-%s" % (place, g),
                    kinds(g, place),
                    "two members of any of 15 kinds, bounds and lengths symbolic",
                    cover=("judged",),
                )
            )
        for n, full in ((2, True), (3, not q)):
            out.append(
                H(
                    "graphs-%d-%s" % (n, g),
                    graphs(g, n, full),
                    "every acyclic import graph of %d modules" % n,
                    cover=("judged",),
                )
            )
        out.append(H("splits-" + g, splits(g), "IMPORTS in one to three clauses", cover=("judged",)))
        out.append(
            H("named-" + g, named(g, 3 if q else 8), "every pair of module names of %d characters" % (3 if q else 8), cover=("judged",))
        )
    return out
