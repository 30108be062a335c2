"""Small object model of ASN.1 modules, rendered to source text."""


class T:
    """A member or definition type."""

    def __init__(self, text, kind, **k):
        self.text, self.kind = text, kind
        self.__dict__.update(k)


def integer(S, lo, hi):
    return T("INTEGER(%s..%s)" % (S.lit(lo), S.lit(hi)), "int", lo=lo, hi=hi)


def real(S, lo, hi):
    return T("REAL(%s .. %s)" % (S.lit(lo), S.lit(hi)), "real", lo=lo, hi=hi)


def boolean(S=None):
    return T("BOOLEAN", "bool")


def string(S, n, kind="IA5String"):
    return T("%s (SIZE (%s))" % (kind, S.lit(n)), "string", length=n)


class Def(str):
    """The source text of a definition, with what it defines."""

    def __new__(cls, text, **k):
        s = str.__new__(cls, text)
        s.__dict__.update(k)
        return s


def ref(S, target):
    """A reference to a definition (or just to a name)."""
    name = target.name if isinstance(target, Def) else target
    return T(
        S.lit(name),
        "ref",
        name=name,
        target=target if isinstance(target, Def) else None,
    )


def resolve(t):
    """The type behind references to simple definitions."""
    if t.kind == "ref" and t.target is not None:
        d = t.target
        if d.kind == "simple":
            return d.typ
        if d.kind == "enum":
            return T(d.name, "enum", target=d)
        return T(d.name, "seq", target=d)
    return t


def array(S, n, elem):
    return T(
        "SEQUENCE (SIZE (%s)) OF %s" % (S.lit(n), elem.text),
        "array",
        length=n,
        elem=elem,
    )


def member(S, key, typ, wc=None, comment=None):
    return (S.lit(key), typ, wc, comment, key)


class Pair(tuple):
    """(key, value) of a component, with a comment."""

    note = None


class Comps(list):
    """Components with a comment after the opening bracket."""

    note = None


def with_components(S, comps, ind="    "):
    """comps: list of (key, value) with value a literal or nested list."""
    note = getattr(comps, "note", None)
    out = "(WITH COMPONENTS {" + (" -- " + note if note else "") + "\n"
    for i, pair in enumerate(comps):
        key, v = pair
        if isinstance(v, list):
            v = with_components(S, v, ind + "  ")
        else:
            v = "(%s)" % S.lit(v)
        note = getattr(pair, "note", None)
        out += "%s  %s %s%s%s\n" % (
            ind,
            S.lit(key),
            v,
            "" if i == len(comps) - 1 else ",",
            " -- " + note if note else "",
        )
    return out + ind + "})"


def sequence(S, name, members, comment=None, kind="SEQUENCE"):
    lines = [
        "  %s ::= %s {%s"
        % (S.lit(name), kind, (" -- " + comment) if comment else "")
    ]
    for i, (key, typ, wc, cm, _) in enumerate(members):
        last = i == len(members) - 1
        s = "    %s %s" % (key, typ.text)
        if wc:
            # the comment of a member with WITH COMPONENTS comes before it
            s += (" -- " + cm + "\n    " if cm else " ") + with_components(S, wc)
            s += "" if last else ","
        else:
            s += "" if last else ","
            s += (" -- " + cm) if cm else ""
        lines.append(s)
    lines.append("  }")
    return Def(
        "\n".join(lines),
        kind="seq",
        name=name,
        members=[(k, t, w, c) for _, t, w, c, k in members],
        comment=comment,
    )


def enumerated(S, name, items, comment=None):
    """items: list of (key, pos or None[, comment])."""
    lines = [
        "  %s ::= ENUMERATED {%s"
        % (S.lit(name), (" -- " + comment) if comment else "")
    ]
    for i, it in enumerate(items):
        last = i == len(items) - 1
        s = "    " + S.lit(it[0])
        if it[1] is not None:
            s += " (%s)" % S.lit(it[1])
        s += "" if last else ","
        if len(it) > 2 and it[2]:
            s += " -- " + it[2]
        lines.append(s)
    lines.append("  }")
    return Def(
        "\n".join(lines), kind="enum", name=name, items=items, comment=comment
    )


def simple(S, name, typ, comment=None):
    return Def(
        "  %s ::= %s%s"
        % (S.lit(name), typ.text, (" -- " + comment) if comment else ""),
        kind="simple",
        name=name,
        typ=typ,
        comment=comment,
    )


def module(S, name, defs, imports=(), comment=None, import_comment=None):
    """imports: list of (type names, module name)."""
    lines = [
        "Module-%s DEFINITIONS AUTOMATIC TAGS ::= BEGIN%s"
        % (S.lit(name), (" -- " + comment) if comment else "")
    ]
    if imports:
        its = []
        for names, mod in imports:
            its.append(
                "    %s FROM Module-%s%s"
                % (
                    ", ".join(
                        S.lit(n.name if isinstance(n, Def) else n)
                        for n in names
                    ),
                    S.lit(mod),
                    " -- " + names.note if getattr(names, "note", None) else "",
                )
            )
        lines.append("  IMPORTS")
        lines.append("\n".join(its))
        lines.append(
            "  ;%s" % ((" -- " + import_comment) if import_comment else "")
        )
    lines.extend(defs)
    lines.append("END")
    return "\n".join(lines) + "\n"


class H:
    """A harness."""

    def __init__(self, name, fn, bounds, cover=(), **k):
        self.name, self.fn, self.bounds, self.cover = name, fn, bounds, cover
        self.__dict__.update(k)


def cmd(S, kind, files, modules, **opt):
    """Command line of a generate-* run over the given input files."""
    argv = ["generate-" + kind] + list(files)
    if kind == "cosmos":
        argv += [
            "--asn1-module=" + modules[0],
            "--asn1-messages=" + ",".join(opt["messages"]),
            "--output-file-name=" + opt.get("target", "tgt"),
            "--output-dir=" + opt.get("out", "out"),
        ]
    else:
        argv += ["--asn1-modules=" + ",".join(modules), "--output-dir=" + opt.get("out", "out")]
        if kind == "binary":
            argv.append("--endianness=" + opt.get("endianness", "little-endian"))
    return argv


def run(S, kind, mods, names=None, **opt):
    """mods: list of (module name, text); runs one generator."""
    files = {"in/m%d.asn" % i: t for i, (_, t) in enumerate(mods)}
    names = [n for n, _ in mods] if names is None else names
    order = opt.pop("order", None)
    paths = list(files)
    if order:
        paths = [paths[i] for i in order]
    return S.run(files, cmd(S, kind, paths, names, **opt))
