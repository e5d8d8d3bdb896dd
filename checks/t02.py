"""T02: the spec tagger only inserts markers, each on the fence it belongs to, and is idempotent."""
from hypothesis import strategies as st
import vf
from . import toolkit as tk

RULE = ("documents of json, python and other fences, some equal to manifest blocks (once, twice, or to two blocks at once), "
        "some already marked, some drifted. The tagged document must be the original plus marker lines, one directly before "
        "each unmarked fence equal to exactly one manifest object not marked elsewhere, and nothing on a second run; marking "
        "a complete document must satisfy the checker. Non-trivial: a marker was inserted, and the document has another fence.")
ASSUMPTIONS = ["documents use LF line ends", "values differ by more than bool against number"]
LEGS = []
entry = st.tuples(st.integers(0, 5), vf.weighted((6, st.just("same")), (1, st.just("drift")), (1, st.just("other"))), tk.style,
                  tk.prose, vf.weighted((4, st.just(None)), (1, st.just("own")), (1, st.sampled_from(tk.NAMES))), tk.how)
manifests = st.lists(st.tuples(st.sampled_from(tk.NAMES), st.one_of(tk.dvalue, tk.dvalue, tk.dvalue, tk.value)),
                     min_size=1, max_size=5, unique_by=lambda b: b[0])


def pyeq(a, b):
    """Plain equality, under which the manifest lookup may see true as 1."""
    return a == b


@vf.leg(LEGS, st.tuples(manifests, st.lists(entry, max_size=7), st.booleans()), quick=4000, thorough=150000)
def tags(c):
    man, ents, dry = c
    mod = tk.tool("tag_spec_examples")
    manifest = dict(man)
    parts, fences = ["intro\n\n"], []
    for i, kind, sty, prose, mark, how in ents:
        name, v = man[i % len(man)]
        if kind == "drift":
            v = tk.change(v, how)
        if kind == "other":
            v = {"nothing": ["like", "it"]}
        mark = name if mark == "own" else mark
        parts.append(prose)
        if mark:
            parts.append(tk.marker(mark, sty))
        fences.append((sum(p.count("\n") for p in parts), v, mark))
        parts.append(tk.fence(v, sty) + "\n")
    text = "".join(parts)
    marked = {m for _, _, m in fences if m}
    want, used = [], set(marked)
    for line, v, m in fences:
        names = [n for n, x in man if isinstance(x, dict) and isinstance(v, dict) and pyeq(x, v)]
        if any(not tk.eq(manifest[n], v) for n in names):
            return None    # bool against number: either answer is fine
        if len(names) == 1 and not m and names[0] not in used:
            used.add(names[0])
            want.append((line, names[0]))
    new, tagged, warnings = mod.tag(manifest, text)
    lines = text.split("\n")
    for line, n in reversed(want):
        lines.insert(line, f"<!-- example: {n} -->")
    vf.same(sorted(tagged), sorted(n for _, n in want), "tagged blocks")
    vf.same(new, "\n".join(lines), "tagged document")
    again, tagged2, _ = mod.tag(manifest, new)
    vf.check(again == new and not tagged2, f"a second run tagged {tagged2}")
    rc, out, after = tk.run_main(mod, manifest, text, *(["--dry-run"] if dry else []))
    vf.same(after, text if dry or not want else new, f"file after main (dry run: {dry})")
    vf.same(rc, 0, "exit status")
    for _, n in want:
        vf.check(f"+ {n}" in out, f"{n} not listed: {out}")
    names = [n for _, n in want] + [m for _, _, m in fences if m]
    vals = {n: v for _, v, n in fences if n} | {n: next(v for ln, v, _ in fences if ln == at) for at, n in want}
    if sorted(names) == sorted(manifest) and all(tk.eq(vals[n], manifest[n]) for n in names):
        rc, out, _ = tk.run_main(tk.tool("check_spec_examples"), manifest, new)
        vf.check(rc == 0, f"the checker rejects the completely tagged document: {out}")
    if want and len(fences) > 1:
        return ["complete" if sorted(names) == sorted(manifest) else "partial"]
