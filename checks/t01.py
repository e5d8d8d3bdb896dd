"""T01: the spec example checker accepts exactly the specs whose tagged blocks equal the manifest."""
from hypothesis import strategies as st
import vf
from . import toolkit as tk

RULE = ("a manifest of named values rendered into a document (json or python fences, reordered keys, spacing, prose, CRLF) "
        "with zero or one drift: a changed node of one value, a dropped, duplicated, extra, renamed, unmarked, swapped or "
        "unparseable block. The checker must accept exactly when nothing drifted. Non-trivial: at least two blocks, or a drift.")
ASSUMPTIONS = ["block names hold no '>' and bodies are one JSON value or Python literal"]
LEGS = []
drift = vf.weighted((3, st.just(("none",))), (8, st.tuples(st.just("change"), st.integers(0, 5), tk.how)),
                    (5, st.tuples(st.sampled_from(["drop", "dup", "unmark", "break", "swap", "rename"]), st.integers(0, 5))),
                    (1, st.tuples(st.just("extra"), st.sampled_from(tk.NAMES + ["zz"]), tk.value)))
blocks = st.lists(st.tuples(st.sampled_from(tk.NAMES), st.one_of(tk.dvalue, tk.dvalue, tk.value),
                            tk.style, tk.prose), max_size=5, unique_by=lambda b: b[0])


@vf.leg(LEGS, st.tuples(blocks, drift, st.booleans()), quick=4000, thorough=150000)
def drifts(c):
    blks, dr, crlf = c
    mod = tk.tool("check_spec_examples")
    manifest = {n: v for n, v, s, p in blks}
    doc = [[n, v, s, p, True, None] for n, v, s, p in blks]
    kind = dr[0]
    if kind == "extra":
        doc.append([dr[1], dr[2], ("json", 2, True, 0, 0, ""), "", True, None])
    elif kind != "none" and doc:
        i = dr[1] % len(doc)
        b = doc[i]
        if kind == "change":
            b[1] = tk.change(b[1], dr[2])
        elif kind == "drop":
            del doc[i]
        elif kind == "dup":
            doc.append(list(b))
        elif kind == "unmark":
            b[4] = False
        elif kind == "break":
            b[5] = tk.body(b[1], b[2]) + " ,}"
        elif kind == "rename":
            b[0] = b[0] + "Z"
        elif kind == "swap":
            j = (i + 1) % len(doc)
            b[0], doc[j][0] = doc[j][0], b[0]
    text = "intro\n\n" + "".join(p + (tk.marker(n, s) if m else "") + tk.fence(v, s, raw) + "\n" for n, v, s, p, m, raw in doc)
    if crlf:
        text = text.replace("\n", "\r\n")
    found, bad, dups = {}, set(), set()
    for n, v, s, p, m, raw in doc:
        if m and raw is not None:
            bad.add(n)
        elif m and n in found:
            dups.add(n)
        elif m:
            found[n] = v
    differs = {n for n in manifest if n in found and not tk.eq(manifest[n], found[n])}
    ok = not bad and not dups and set(found) == set(manifest) and not differs
    got, errors = mod.parse_spec_blocks(text)
    vf.check(set(got) == set(found) and all(tk.eq(got[n], found[n]) for n in found), f"blocks {vf.short(got)} want {vf.short(found)}")
    vf.check(bool(errors) == bool(bad or dups), f"errors {errors} want for {bad | dups}")
    acc, report = mod.compare(manifest, got)
    vf.check(acc == (set(found) == set(manifest) and not differs), f"compare says {acc}, differing {differs}: {report}")
    for n in differs | (set(manifest) ^ set(found)):
        vf.check(any(n in line for line in report), f"report does not name {n!r}: {report}")
    rc, out, _ = tk.run_main(mod, manifest, text)
    vf.check(rc == (0 if ok else 1), f"exit {rc}, in sync: {ok}; {out}")
    if ok:
        vf.check(f"OK: {len(manifest)} blocks in sync" in out, out)
    if len(blks) >= 2 or not ok:
        return [kind, "accepted" if ok else "rejected"]
