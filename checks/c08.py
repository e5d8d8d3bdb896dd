"""C08: a signing threshold is met by exactly the sets of signers its weights say, however it is written."""
import json
from fractions import Fraction
from hypothesis import strategies as st
import vf
from . import cesr

RULE = ("thresholds of every shape: whole numbers, single and several clauses, nested weighted groups, each handed over as numbers, "
        "hex text, lists, JSON text, computable form and qualified encoding; signer index lists with repeats, any order and out of "
        "range; plus malformed thresholds. Non-trivial: thresholds a proper subset of the signers could satisfy.")
LEGS = []
REFUSE = (ValueError, TypeError, OverflowError)


def frac(draw):
    d = draw(st.integers(1, 6))
    return Fraction(draw(st.integers(0, d)), d)


@st.composite
def elems(draw):
    if draw(st.integers(0, 3)) == 0:
        return (frac(draw), [frac(draw) for _ in range(draw(st.integers(1, 3)))])
    return frac(draw)


@st.composite
def clauses(draw):
    cs = draw(st.lists(st.lists(elems(), min_size=1, max_size=5), min_size=1, max_size=3))
    out = []
    for c in cs:
        c = [(e[0], lift(e[1])) if isinstance(e, tuple) else e for e in c]
        if draw(st.integers(0, 9)):   # mostly valid
            c = lift(c)
        out.append(c)
    return [[(str(e[0]), [str(w) for w in e[1]]) if isinstance(e, tuple) else str(e) for e in c] for c in out]


def top(c):
    return [e[0] if isinstance(e, tuple) else e for e in c]


def lift(c):
    """append a weight that brings the sum to one when it is short"""
    t = sum(top(c))
    if t < 1:
        n = 1 - t
        return c + [n]
    return c


def parse(cs):
    return [[(Fraction(e[0]), [Fraction(w) for w in e[1]]) if isinstance(e, tuple) else Fraction(e) for e in c] for c in cs]


def valid(cs):
    return all(sum(top(c)) >= 1 and all(sum(e[1]) >= 1 for e in c if isinstance(e, tuple)) for c in cs) and bool(cs)


def count(cs):
    return sum(len(e[1]) if isinstance(e, tuple) else 1 for c in cs for e in c)


def met(cs, idx):
    have, at, ok = set(idx), 0, bool(idx)
    if any(not 0 <= i < count(cs) for i in have):
        return False
    for c in cs:
        w = Fraction(0)
        for e in c:
            if isinstance(e, tuple):
                got = sum((x for k, x in enumerate(e[1]) if at + k in have), Fraction(0))
                at += len(e[1])
                if got >= 1:
                    w += e[0]
            else:
                w += e if at in have else 0
                at += 1
        ok = ok and w >= 1
    return ok


def wtext(w, style):
    """ways to write one weight"""
    n, d = w.numerator, w.denominator
    return [f"{n}/{d}" if 0 < w < 1 else f"{n}", f"{2 * n}/{2 * d}", f"{n}/{d}"][style % 3]


def written(cs, style):
    out, k = [], style
    for c in cs:
        b = []
        for e in c:
            k = k * 7 + 3
            if isinstance(e, tuple):
                b.append({wtext(e[0], k // 5): [wtext(w, k + j) for j, w in enumerate(e[1])]})
            else:
                b.append(wtext(e, k // 5))
        out.append(b)
    return out


def canon(cs):
    out = written(cs, 0)
    f = lambda w: wtext(w, 0)
    out = [[{f(e[0]): [f(w) for w in e[1]]} if isinstance(e, tuple) else f(e) for e in c] for c in cs]
    return out[0] if len(out) == 1 else out


IDX = st.lists(st.lists(st.integers(0, 12), max_size=9), max_size=6)


@vf.leg(LEGS, st.tuples(clauses(), st.integers(0, 50), IDX), quick=4000)
def weighted(c):
    from keri.core.coring import Tholder
    from keri.kering import KeriError
    cs, style, idxs = c
    cs = parse(cs)
    sith = written(cs, style)
    shapes = [sith, json.dumps(sith), tuple(tuple(b) for b in sith)]
    if len(sith) == 1:
        shapes += [sith[0], json.dumps(sith[0])]
    ok = valid(cs)
    made = []
    for s in shapes:
        try:
            made.append(Tholder(sith=s))
        except (KeriError, *REFUSE):
            vf.check(not ok, f"refused {s}")
            continue
        vf.check(ok, f"accepted {s}")
    try:
        made.append(Tholder(thold=[[e if not isinstance(e, tuple) else (e[0], e[1]) for e in b] for b in cs]))
    except (KeriError, *REFUSE):
        vf.check(not ok, f"refused {cs}")
    else:
        vf.check(ok, f"accepted {cs}")
    if not ok:
        return "refused"
    bext = "a".join("c".join(wtext(e[0], 0).replace("/", "s") + "k" + "v".join(wtext(w, 0).replace("/", "s") for w in e[1])
                             if isinstance(e, tuple) else wtext(e, 0).replace("/", "s") for e in b) for b in cs)
    made.append(Tholder(limen=made[0].limen))
    made.append(Tholder(sith=made[0].sith))
    made.append(Tholder(sith=made[0].json))
    made.append(Tholder(thold=made[0].thold))
    n = count(cs)
    idxs = idxs + [list(range(n)), list(range(n - 1)), []]
    for t in made:
        vf.same((t.weighted, t.size, t.num), (True, n, None), "kind and size")
        vf.same(t.sith, canon(cs), "threshold written out")
        vf.same(json.loads(t.json), canon(cs), "threshold as JSON")
        lim = t.limen.decode()
        r = cesr.decode(lim)
        vf.check(isinstance(r, tuple) and r[0][-1] == "A" and lim.endswith(bext), f"qualified threshold {lim} for {bext}")
        for idx in idxs:
            vf.same(t.satisfy(indices=idx), met(cs, idx), f"{canon(cs)} met by {idx}")
    # the fewest signers that meet it, and without any one of them
    need = list(range(n))
    for i in range(n):
        less = [x for x in need if x != i]
        if met(cs, less):
            need = less
    t = made[style % len(made)]
    vf.check(t.satisfy(indices=need[::-1] + need), f"{canon(cs)} not met by {need}")
    for i in need:
        vf.check(not t.satisfy(indices=[x for x in need if x != i]), f"{canon(cs)} met by {need} without {i}")
    return ["nested" if any(isinstance(e, tuple) for b in cs for e in b) else "flat", f"clauses{len(cs)}"] if len(need) < n else None


@vf.leg(LEGS, st.tuples(st.one_of(st.integers(-2, 12), st.integers(0, 2 ** 40)), IDX), quick=2000)
def numeric(c):
    from keri.core.coring import Tholder, Number
    from keri.kering import KeriError
    n, idxs = c
    makes = [lambda: Tholder(sith=n), lambda: Tholder(sith=f"{n:x}"), lambda: Tholder(thold=n)]
    if n >= 0:
        makes += [lambda: Tholder(limen=Number(num=n).qb64), lambda: Tholder(limen=Number(num=n).qb64b),
                  lambda: Tholder(limen=cesr.encode("0A", "", n.to_bytes(16, "big"))), lambda: Tholder(sith=Tholder(thold=n).sith)]
    for k, make in enumerate(makes):
        try:
            t = make()
        except (KeriError, *REFUSE):
            vf.check(n < 0, f"refused {n} by way {k}")
            continue
        vf.check(n >= 0, f"accepted {n} by way {k}")
        vf.same((t.weighted, t.size, t.num, t.thold, t.sith, t.json), (False, n, n, n, f"{n:x}", json.dumps(f"{n:x}")), "number")
        vf.same(t.limen, Number(num=n).qb64b, "qualified threshold")
        for idx in idxs + [list(range(min(n, 40))), list(range(min(n, 40) - 1)), [0] * min(n, 40)]:
            vf.same(t.satisfy(indices=idx), n > 0 and len(set(idx)) >= n, f"{n} met by {idx}")
    return "number" if n > 1 else None


BADW = st.sampled_from(["2", "-1/2", "3/2", "0.5", "1.5", "x", "", "1/0", "1/2/3", "-1", "0.999", "nan"])


@vf.leg(LEGS, st.tuples(clauses(), BADW, st.integers(0, 4)), quick=800)
def malformed(c):
    """one bad weight or a wrongly shaped clause spoils an otherwise good threshold"""
    from keri.core.coring import Tholder
    from keri.kering import KeriError
    cs, bad, where = c
    cs = parse(cs)
    if not valid(cs):
        return None
    sith = written(cs, 0)
    if where == 0:
        sith[-1].append(bad)
    elif where == 1:
        sith[0].insert(0, bad)
    elif where == 2:
        sith[0].append({"1": [bad, "1"]})
    elif where == 3:
        sith[0].append({bad: ["1"]})
    else:
        sith.append([[], [{"1/2": ["1"], "1": ["1"]}, "1"], ["1/3", "1/3"], [{"1": ["1/2", "1/3"]}], [{"1": []}, "1"], [1, 1]][len(sith[0]) % 6])
    for s in (sith, json.dumps(sith)):
        try:
            t = Tholder(sith=s)
        except (KeriError, *REFUSE, ZeroDivisionError):
            continue
        raise vf.Violation(f"accepted {s} as {t.sith}")
    return f"bad{where}"
