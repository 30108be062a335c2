"""C07: C initialisers give every fixed value to its own field."""
from symapg import asn, oracle, world
from symapg.asn import H


def check_tree(S, got, want):
    """got: initialiser tree of the .c file; want: component tree."""
    S.check(isinstance(got, list), "value instead of a nested initialiser")
    S.check(len(got) == len(want), "number of initialised fields")
    for key, v in want:
        hits = [g for n, g in got if S.truth(S.eq(n, oracle.cname(key)))]
        S.check(len(hits) == 1, "field is initialised exactly once")
        if isinstance(v, list):
            check_tree(S, hits[0], v)
            continue
        if isinstance(hits[0], list):
            S.fail("nested initialiser instead of a value")
        n = S.num(hits[0])
        if n is None:
            S.fail("initialiser is not a number")
        if isinstance(v, bool):
            v = 1 if S.truth(v) else 0
        S.check(n == v, "initialised value")


def check_module(S, r, name, seqs):
    """seqs: every SEQUENCE of the module."""
    h, c = S.c(r, name + ".h"), S.c(r, name + ".c")
    msgs = [s for s in seqs if any(w for _, _, w, _ in s.members)]
    S.check(len(h.vars()) == len(msgs), "variables declared in the header")
    S.check(len(c.vars()) == len(msgs), "variables defined in the C file")
    S.check(len(c.decls) == len(msgs), "other declarations in the C file")
    S.check(c.defines == [] and h.defines == [], "unexpected macros")
    if msgs:
        S.check(c.includes == [(name + ".h", False)], "includes of the C file")
    for m in msgs:
        t = oracle.cname(m.name)
        v = oracle.lowerized(t)
        d = oracle.find(S, h.vars(), v)
        S.check(S.eq(d.ctype.replace("extern ", ""), t), "declared type")
        S.check(d.init is None, "definition in a header")
        d = oracle.find(S, c.vars(), v)
        S.check(S.eq(d.ctype, t), "defined type")
        if d.init is None:
            S.fail("no initialiser")
        check_tree(S, d.init, [(k, w) for k, _, w, _ in m.members if w])
        oracle.check_struct(S, h, m)
        i = [x[0] for x in h.layout].index("var")
        S.check(
            all(x[0] == "var" for x in h.layout[i:]),
            "variables come after the types",
        )


def values(S, tag):
    return [
        ("num-a", S.int(tag + " int", -(1 << 40), 1 << 40)),
        ("flag", S.bool(tag + " bool")),
        ("rl", S.float(tag + " real")),
    ]


def some(S, tag, comps):
    """A non-empty subset, forwards or backwards."""
    out = [c for c in comps if S.flag(tag + " has " + c[0])]
    S.assume(len(out) > 0)
    if len(out) > 1 and S.flag(tag + " reversed"):
        out.reverse()
    return out


def types(S):
    leaf = asn.sequence(
        S,
        "Leaf-type",
        [
            asn.member(S, "num-a", asn.integer(S, -(1 << 41), 1 << 41)),
            asn.member(S, "flag", asn.boolean(S)),
            asn.member(S, "rl", asn.real(S, -1.0e300, 1.0e300)),
        ],
    )
    mid = asn.sequence(
        S,
        "Mid",
        [
            asn.member(S, "in-one", asn.ref(S, leaf)),
            asn.member(S, "num-a", asn.integer(S, 0, 7)),
            asn.member(S, "in-two", asn.ref(S, leaf)),
        ],
    )
    return leaf, mid


def flat(S):
    leaf, mid = types(S)
    msg = asn.sequence(
        S,
        "Msg-a",
        [
            asn.member(S, "before", asn.integer(S, 0, 7)),
            asn.member(
                S, "pay-load", asn.ref(S, leaf), some(S, "f", values(S, "v"))
            ),
            asn.member(S, "num-a", asn.integer(S, 0, 7)),
        ],
    )
    place = S.flag("imported")
    if place:
        mods = [
            ("lib-x", asn.module(S, "lib-x", [leaf])),
            ("m", asn.module(S, "m", [msg], [([leaf], "lib-x")])),
        ]
        order = [1, 0] if S.flag("user first") else [0, 1]
    else:
        mods = [("m", asn.module(S, "m", [msg, leaf]))]
        order = None
    r = asn.run(S, "c", mods, order=order)
    S.check(r.ok, "valid message is rejected")
    check_module(S, r, "m", [msg] if place else [msg, leaf])
    if place:
        check_module(S, r, "lib_x", [leaf])
    S.cover("imported" if place else "local")


def nested(S):
    leaf, mid = types(S)
    comps = []
    if S.flag("one"):
        comps.append(("in-one", values(S, "one")[: 1 + S.choose("n1", 2)]))
    if S.flag("num"):
        comps.append(("num-a", S.int("outer int", 0, 7)))
    if S.flag("two"):
        comps.append(("in-two", values(S, "two")[1:]))
    S.assume(len(comps) > 0)
    if S.flag("reversed"):
        comps.reverse()
    top = asn.sequence(S, "Top", [asn.member(S, "mid", asn.ref(S, mid))])
    deep = S.flag("deep")
    if deep:
        m = asn.member(S, "pay", asn.ref(S, top), [("mid", comps)])
    else:
        m = asn.member(S, "pay", asn.ref(S, mid), comps)
    msg = asn.sequence(S, "Msg", [m])
    r = asn.run(S, "c", [("m", asn.module(S, "m", [msg, top, mid, leaf]))])
    S.check(r.ok, "valid message is rejected")
    check_module(S, r, "m", [msg, top, mid, leaf])
    S.cover("deep" if deep else "shallow")


def several(S):
    """Several messages, in several modules, some without fixed values."""
    leaf, mid = types(S)
    has = [S.flag("fixed " + x) for x in "abc"]
    v = [S.int("value " + x, -(1 << 40), 1 << 40) for x in "abc"]

    def msg(i, name):
        return asn.sequence(
            S,
            name,
            [
                asn.member(
                    S,
                    "pay",
                    asn.ref(S, leaf),
                    [("num-a", v[i])] if has[i] else None,
                )
            ],
        )

    a, b, c = msg(0, "Msg-a"), msg(1, "Msg-b"), msg(2, "Other")
    plain = asn.sequence(S, "Plain", [asn.member(S, "x", asn.ref(S, leaf))])
    mods = [
        ("mod-a", asn.module(S, "mod-a", [a, leaf, b, plain])),
        ("mod-b", asn.module(S, "mod-b", [c], [([leaf], "mod-a")])),
    ]
    order = [1, 0] if S.flag("other order") else [0, 1]
    r = asn.run(S, "c", mods, order=order)
    S.check(r.ok, "valid bundle is rejected")
    S.check(len(r.files) == 4, "number of files")
    check_module(S, r, "mod_a", [a, leaf, b, plain])
    check_module(S, r, "mod_b", [c])
    S.cover("none" if not any(has) else "all" if all(has) else "some")


def two_members(S):
    """Two members with fixed values in one message."""
    leaf, mid = types(S)
    msg = asn.sequence(
        S,
        "Msg",
        [
            asn.member(S, "a", asn.ref(S, leaf), [("num-a", S.int("va", 0, 9))]),
            asn.member(S, "b", asn.ref(S, leaf), [("num-a", S.int("vb", 0, 9))]),
        ],
    )
    r = asn.run(S, "c", [("m", asn.module(S, "m", [msg, leaf]))])
    S.check(r.ok, "valid message is rejected")
    S.cover("two")
    h, c = S.c(r, "m.h"), S.c(r, "m.c")
    n = len([d for d in c.vars() if d.name == "msg"])
    S.check(n >= 1, "variable is missing")
    S.check(n == 1, "two definitions of the variable of a message")
    check_module(S, r, "m", [msg, leaf])


def modules(S, w, r):
    for role, m in w.mods.items():
        check_module(
            S, r, oracle.cname(m.name), [d for d in m.defs if d.kind == "seq"]
        )


def harnesses(tier):
    b = "integers in [-2^40, 2^40], every finite double, booleans"
    return world.harnesses(("c",), modules) + [
        H("flat", flat, b + ", every subset and order of 3 fields, local or imported type", cover=("local", "imported")),
        H("nested", nested, b + ", component trees up to depth 3", cover=("deep", "shallow")),
        H("several", several, b + ", 3 messages in 2 modules", cover=("none", "all", "some")),
        H("two-members", two_members, "two members with fixed values", cover=("two",)),
    ]
