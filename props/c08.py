"""C08: ENUMERATED values are dense, ordered and the same everywhere."""
import itertools

from symapg import asn, core, oracle, world
from symapg.asn import H
from symapg.core import land

NAMES = ("red", "g-n", "blue", "x1", "yel")


def expected(S, pos):
    """Order of the items, None if the positions are not acceptable."""
    n = len(pos)
    val = [0 if p is None else p for p in pos]
    if S.truth(land(*[v == 0 for v in val])):
        return list(range(n))
    for perm in itertools.permutations(range(n)):
        if S.truth(land(*[v == k for v, k in zip(val, perm)])):
            return [perm.index(k) for k in range(n)]
    return None


def check_c_enum(S, f, name, items):
    en = oracle.check_enum(S, f, core_def(name))
    S.check(len(en.items) == len(items), "number of enumerators")
    for k, (e, it) in enumerate(zip(en.items, items)):
        S.check(S.eq(e.name, oracle.cname(it)), "enumerator name or order")
        S.check(
            S.intval(e.value, "enumerator value") == k, "enumerator value"
        )


class core_def:
    def __init__(self, name):
        self.name = name


def harness(n, gen, absent):
    def h(S):
        pos = []
        for i in range(n):
            if absent and not S.flag("given %d" % i):
                pos.append(None)
            else:
                pos.append(S.int("pos %d" % i, -(1 << 33), 1 << 33))
        en = asn.enumerated(
            S, "Colour-t", [(NAMES[i], p) for i, p in enumerate(pos)]
        )
        other = asn.enumerated(S, "Other", [("p", None), ("q", None)])
        seq = asn.sequence(
            S,
            "Msg",
            [
                asn.member(S, "first", asn.ref(S, en)),
                asn.member(S, "o", asn.ref(S, other)),
                asn.member(S, "num", asn.integer(S, 0, 7)),
                asn.member(S, "second", asn.ref(S, en)),
            ],
        )
        mod = asn.module(S, "m", [seq, en, other])
        r = asn.run(S, gen, [("m", mod)], ["m"], messages=["Msg"])
        order = expected(S, pos)
        if order is None:
            S.check(r.rejected, "wrong positions are accepted")
            S.cover("rejected")
            return
        S.check(r.ok, "valid positions are rejected")
        items = [NAMES[i] for i in order]
        S.cover("sequential" if order == list(range(n)) else "permuted")
        if gen == "cosmos":
            en.states = items
            (p,) = S.cosmos(r)
            oracle.check_packet(S, p, seq)
            return
        f = S.c(r, "m_msg.h" if gen == "cfs" else "m.h")
        check_c_enum(S, f, "Colour-t", items)
        check_c_enum(S, f, "Other", ["p", "q"])
        oracle.check_struct(S, f, seq)

    return h


def large(n, gen):
    """A large list: two positions free, the rest in place."""

    def h(S):
        i = S.choose("i", n)
        j = S.choose("j", n)
        S.assume(i < j)
        pos = [k for k in range(n)]
        pos[i] = S.int("pos i", -300, 300)
        pos[j] = S.int("pos j", -300, 300)
        names = ["it%d" % k for k in range(n)]
        en = asn.enumerated(S, "Big", list(zip(names, pos)))
        seq = asn.sequence(
            S,
            "Msg",
            [
                asn.member(S, "a", asn.ref(S, en)),
                asn.member(S, "b", asn.integer(S, 0, 1)),
            ],
        )
        r = asn.run(
            S,
            gen,
            [("m", asn.module(S, "m", [en, seq]))],
            ["m"],
            messages=["Msg"],
        )
        kept = S.truth(land(pos[i] == i, pos[j] == j))
        swapped = not kept and S.truth(land(pos[i] == j, pos[j] == i))
        if not (kept or swapped):
            S.check(r.rejected, "wrong positions are accepted")
            S.cover("rejected")
            return
        S.check(r.ok, "valid positions are rejected")
        items = list(names)
        if swapped:
            items[i], items[j] = names[j], names[i]
        S.cover("swapped" if swapped else "kept")
        if gen == "cosmos":
            en.states = items
            (p,) = S.cosmos(r)
            oracle.check_packet(S, p, seq)
            return
        f = S.c(r, "m_msg.h")
        check_c_enum(S, f, "Big", items)
        oracle.check_struct(S, f, seq)

    return h


def plain(gen):
    """Lists without positions: every length up to 17."""

    def h(S):
        n = 1 + S.choose("n", 17)
        zero = S.flag("explicit zeros")
        names = ["it%d" % k for k in range(n)]
        en = asn.enumerated(S, "Big", [(k, 0 if zero else None) for k in names])
        seq = asn.sequence(S, "Msg", [asn.member(S, "a", asn.ref(S, en))])
        r = asn.run(
            S,
            gen,
            [("m", asn.module(S, "m", [seq, en]))],
            ["m"],
            messages=["Msg"],
        )
        S.check(r.ok, "valid list is rejected")
        S.cover("ok")
        if gen == "cosmos":
            (p,) = S.cosmos(r)
            oracle.check_packet(S, p, seq)
            return
        f = S.c(r, "m_msg.h" if gen == "cfs" else "m.h")
        check_c_enum(S, f, "Big", names)
        oracle.check_struct(S, f, seq)

    return h


def harnesses(tier):
    out = world.harnesses(
        ("cfs", "c", "binary"), lambda S, w, r: w.check_types(r)
    )
    out += world.harnesses(("cosmos",), lambda S, w, r: w.check_packets(r))
    out += world.spoilers(("cfs", "c", "binary", "cosmos"), ("position",), tier == "quick", "positions that are no permutation are accepted")
    top = 4 if tier == "quick" else 5
    gens = ("cfs", "cosmos") if tier == "quick" else ("cfs", "cosmos", "c", "binary")
    for gen in gens:
        for n in range(1, top + 1):
            cov = ("rejected", "sequential") + (("permuted",) if n > 1 else ())
            if n == 1:
                cov = ("rejected", "sequential")
            out.append(
                H(
                    "%s-%d" % (gen, n),
                    harness(n, gen, n < 4),
                    "%d items, every position in [-2^33, 2^33] or absent" % n,
                    cover=cov,
                )
            )
        out.append(H("%s-plain" % gen, plain(gen), "1..17 items without positions", cover=("ok",)))
    for gen in ("cfs", "cosmos"):
        n = 6 if tier == "quick" else 9
        out.append(
            H(
                "%s-large" % gen,
                large(n, gen),
                "%d items, two of them with any position in [-300, 300]" % n,
                cover=("rejected", "kept", "swapped"),
            )
        )
    return out
