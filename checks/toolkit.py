"""Shared by the spec tool checks: values, documents, and their rendering."""
import contextlib
import importlib.util
import io
import json
import os
import pprint
import tempfile
from hypothesis import strategies as st
import vf

_mods = {}


def tool(name):
    if name not in _mods:
        spec = importlib.util.spec_from_file_location("vf_" + name, os.path.join(vf.REPO, "tools", name + ".py"))
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        _mods[name] = m
    return _mods[name]


NAMES = ["accreditationCompact", "a", "b", "b2", "schema_X", "x-y", "Partial.disclosure", "two words", "A"]
text = st.one_of(st.sampled_from(["", "x", "EAbc", "```", "<!-- x -->", "-->", "a'b", 'q"', "\\", "\n", "é", "1"]),
                 st.text(st.characters(exclude_categories=["Cs"]), max_size=6))
key = st.one_of(st.sampled_from(["d", "v", "flag", "n", "$id", "a.b", "é", "list", ""]), st.text(st.sampled_from("abz-_"), max_size=3))
leaf = st.one_of(text, text, st.booleans(), st.none(), st.integers(-3, 3), st.integers(-2**70, 2**70),
                 st.floats(allow_nan=False, allow_infinity=False, width=32))
value = st.recursive(leaf, lambda c: st.one_of(st.lists(c, max_size=4), st.dictionaries(key, c, max_size=4)), max_leaves=12)
dvalue = st.dictionaries(key, value, max_size=5)


def eq(a, b):
    """Equal as JSON values: true is not 1, but 1 is 1.0."""
    if isinstance(a, bool) or isinstance(b, bool) or a is None or b is None:
        return a is b
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(eq(a[k], b[k]) for k in a)
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(map(eq, a, b))
    num = (int, float)
    return a == b if (type(a) is type(b) or (isinstance(a, num) and isinstance(b, num))) else False


def reorder(v, n):
    if isinstance(v, dict):
        ks = list(v)
        ks = ks[n % len(ks):] + ks[:n % len(ks)] if ks else ks
        return {k: reorder(v[k], n) for k in ks}
    return [reorder(x, n) for x in v] if isinstance(v, list) else v


style = st.tuples(st.sampled_from(["json", "python", "JSON", "Python"]), st.integers(0, 4), st.booleans(), st.integers(0, 3),
                  st.integers(0, 2), st.sampled_from(["", "", " ", "  "]))


def body(v, sty):
    lang, indent, ascii_, order, _, _ = sty
    v = reorder(v, order)
    if lang.lower() == "json":
        return json.dumps(v, indent=indent or None, ensure_ascii=ascii_)
    return pprint.pformat(v, width=30 + 20 * indent, sort_dicts=ascii_) if indent else repr(v)


def fence(v, sty, raw=None):
    return f"```{sty[5]}{sty[0]}\n{body(v, sty) if raw is None else raw}\n```\n"


def marker(name, sty):
    return ["<!-- example: %s -->", "<!--example:%s-->", "<!--  example:   %s  -->"][sty[3] % 3] % name + "\n" * (1 + sty[4])


PROSE = ["", "prose\n\n", "# Title\n\nsome `code` text\n\n", "| a | b |\n|---|---|\n\n", "```text\nnot a block\n```\n\n",
         "<!-- a comment -->\n\n", "```\nplain {\n```\n\n", "> quote\n\n"]
prose = st.sampled_from(PROSE)


def paths(v, at=()):
    yield at
    if isinstance(v, dict):
        for k in v:
            yield from paths(v[k], at + (k,))
    elif isinstance(v, list):
        for i, x in enumerate(v):
            yield from paths(x, at + (i,))


def change(v, how):
    """A small change: `how` = (which node, what to do)."""
    where, what = how
    ps = list(paths(v))
    p = ps[where % len(ps)]

    def at(x, p):
        if p:
            y = dict(x) if isinstance(x, dict) else list(x)
            y[p[0]] = at(x[p[0]], p[1:])
            return y
        if isinstance(x, dict):
            ks = list(x)
            if what == 0 or not ks:
                return {**x, "zz": None}
            if what == 1:
                return {k: x[k] for k in ks[:-1]}
            if what == 2:
                return {**{k: x[k] for k in ks[1:]}, ks[0] + "_": x[ks[0]]}
            return list(x.values()) if what == 3 else {**x, ks[0]: [x[ks[0]]]}
        if isinstance(x, list):
            return [x + [None], x[:-1], x[::-1], {str(i): y for i, y in enumerate(x)}, x + x[-1:]][what]
        if isinstance(x, bool):
            return [not x, int(x), None, str(x), not x][what]
        if isinstance(x, (int, float)):
            return [x + 1, -x, str(x), bool(x) if x in (0, 1) else x + 1, None][what]
        if isinstance(x, str):
            return [x + "x", x[:-1], x + " ", [x], None][what]
        return [False, "", 0, [], {}][what]
    return at(v, p)


how = st.tuples(st.integers(0, 40), st.integers(0, 4))


def run_main(mod, manifest, spec, *extra):
    d = tempfile.mkdtemp()
    try:
        m, s = os.path.join(d, "m.json"), os.path.join(d, "s.md")
        with open(m, "w", encoding="utf-8") as f:
            json.dump(manifest, f)
        with open(s, "w", encoding="utf-8", newline="") as f:
            f.write(spec)
        out, err = io.StringIO(), io.StringIO()
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
            rc = mod.main(["--manifest", m, "--spec", s, *extra])
        with open(s, encoding="utf-8", newline="") as f:
            after = f.read()
        return rc, out.getvalue(), after
    finally:
        for f in ("m.json", "s.md"):
            os.unlink(os.path.join(d, f))
        os.rmdir(d)
