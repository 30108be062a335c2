"""C17: only well-formed ASN.1 identifiers are accepted."""
from symapg import asn
from symapg.asn import H, T
from symapg.core import ch_dom, ch_eq, land, lnot, lor
from symapg.symre import char_in

ASSUMPTIONS = [
    "the parser sees placeholders; whether it accepts a text is decided by the regular expression of the grammar rule that matched the"
    " placeholder (taken from the loaded grammar, translated to a formula over the characters). The context of a name never starts with a"
    " character of the alphabet, so matching the whole name is what acceptance means; real runs confirm every path",
]
ALPHA = "azAZ09-_"


def well_formed(text, capital):
    first = char_in(
        text[0], (lambda c: "A" <= c <= "Z") if capital else (lambda c: "a" <= c <= "z")
    )
    conds = [first]
    for i, c in enumerate(text[1:], 1):
        conds.append(
            char_in(c, lambda x: "a" <= x <= "z" or x in "0123456789-")
        )
        dash = char_in(c, lambda x: x == "-")
        if i == len(text) - 1:
            conds.append(lnot(dash))
        else:
            conds.append(
                lnot(land(dash, char_in(text[i + 1], lambda x: x == "-")))
            )
    return land(*conds)


CAPITAL = (
    "sequence name",
    "enumerated name",
    "simple name",
    "choice name",
    "referenced type",
    "array element type",
    "imported type",
)
LOWER = (
    "module name",
    "imported module name",
    "member key",
    "last member key",
    "member key with components",
    "component key",
    "last component key",
    "nested component key",
    "enumerator",
    "last enumerator",
)


def place(gen, where, lengths):
    def h(S):
        pos = S.pick("place", where)
        cap = pos in CAPITAL
        t = S.text("name", S.pick("length", lengths), ALPHA)
        src = S.raw(t, cap)
        at = lambda p, d: src if p == pos else d
        lines = []
        mod = at("module name", "mod-under-test")
        imp = at("imported module name", "other-module")
        argmod = t if pos == "module name" else "mod-under-test"
        argimp = t if pos == "imported module name" else "other-module"
        ty = at("imported type", "Imported-type")
        other = (
            "Module-%s DEFINITIONS AUTOMATIC TAGS ::= BEGIN\n"
            "  %s ::= SEQUENCE {\n    other-key INTEGER(0..255)\n  }\nEND\n"
        ) % (imp, ty)
        lines.append("Module-%s DEFINITIONS AUTOMATIC TAGS ::= BEGIN" % mod)
        lines.append("  IMPORTS %s FROM Module-%s ;" % (ty, imp))
        ref = at("referenced type", "Refd-type")
        arr = at("array element type", "Elem-type")
        key = at("component key", "first-key")
        last = at("last component key", "second-key")
        inner = at("nested component key", "inner-key")
        if pos == "choice name":
            lines.append("  %s ::= CHOICE {\n    choice-key BOOLEAN\n  }" % src)
        lines.append("  %s ::= INTEGER(0..255)" % at("simple name", "Simple-type"))
        lines.append("  %s ::= INTEGER(0..255)" % arr)
        lines.append(
            "  %s ::= ENUMERATED {\n    %s,\n    %s\n  }"
            % (
                at("enumerated name", "Enum-type"),
                at("enumerator", "first-item"),
                at("last enumerator", "second-item"),
            )
        )
        lines.append("  Inner-type ::= SEQUENCE {\n    %s INTEGER(0..255)\n  }" % inner)
        lines.append(
            "  %s ::= SEQUENCE {\n    %s INTEGER(0..255),\n    %s Inner-type,\n    %s INTEGER(0..255)\n  }"
            % (ref, key, "third-key", last)
        )
        lines.append(
            "  %s ::= SEQUENCE {\n    %s INTEGER(0..255),\n    %s INTEGER(0..7)\n  }"
            % (
                at("sequence name", "Seq-type"),
                at("member key", "plain-key"),
                at("last member key", "last-key"),
            )
        )
        wc = (
            "(WITH COMPONENTS {\n      %s (1),\n      third-key (WITH COMPONENTS {\n        %s (3)\n      }),\n      %s (2)\n    })"
            % (key, inner, last)
        )
        lines.append(
            "  Message-type ::= SEQUENCE {\n    %s %s %s,\n    array-key SEQUENCE (SIZE (3)) OF %s,\n    import-key %s\n  }"
            % (at("member key with components", "head-key"), ref, wc, arr, ty)
        )
        lines.append("END")
        r = asn.run(
            S,
            gen,
            [(argimp, other), (argmod, "\n".join(lines) + "\n")],
            [argmod] if gen == "cosmos" else None,
            messages=["Message-type"],
        )
        S.check(not r.hang, "does not terminate")
        good = well_formed(t, cap)
        if r.ok:
            S.check(good, "malformed name is accepted: " + pos)
            S.cover("accepted")
        else:
            S.check(lnot(good), "well-formed name is rejected: " + pos)
            S.check(len(r.files) == 0, "output in spite of the rejection")
            S.cover("rejected")

    return h


def harnesses(tier):
    q = tier == "quick"
    out = []
    for g in ("cfs", "cosmos") if q else ("cfs", "c", "binary", "cosmos"):
        for name, where in (("lower", LOWER), ("capital", CAPITAL)):
            n = (1, 2, 3, 4) if q else (1, 2, 3, 4, 5, 6, 7, 8)
            if g != "cfs" and name == "capital":
                # no C for CHOICE in COSMOS; definitions are not used there
                where = tuple(w for w in where if w != "choice name")
            out.append(
                H(
                    "%s-%s" % (name, g),
                    place(g, where, n),
                    "every text of %s characters over %r at %d places" % (n, ALPHA, len(where)),
                    cover=("accepted", "rejected"),
                )
            )
    return out
