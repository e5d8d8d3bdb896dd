"""S02: what the browser store flushed survives; what it did not flush is not lost from the next flush."""
import asyncio
import copy
from hypothesis import strategies as st
import vf
from . import kvmodel as kv

RULE = ("histories of writes, flushes, reopens, version changes and closes over four sub-stores (one per family) on a "
        "backing store whose syncs can fail or be cancelled (before or after taking effect) and during whose pending syncs "
        "further writes and flushes are made; after each reopen the contents, flags and version must be those a "
        "successful flush covered. Non-trivial: a reopen or final check happened after at least two flushes and three "
        "content changes, one of the flushes having failed, been interleaved with writes, or followed a removal.")
ASSUMPTIONS = ["the browser storage handle is replaced by an in-memory stand-in whose sync is atomic per sub-store",
               "no claim about what two overlapping flushes cover until a later flush succeeds"]
LEGS = []

FAM = dict(p="plain", o="on", i="ioset", n="onioset")


class Boom(Exception):
    pass


class Pause:
    def __await__(self):
        yield self


class Handle(dict):
    def __init__(self, backend, ns):
        super().__init__(copy.deepcopy(backend.data.get(ns, {})))
        self.backend, self.ns = backend, ns

    def get(self, k, default=None):
        v = dict.get(self, k, default)
        return self.backend.wire(v) if v is not None else v

    async def sync(self):
        self.backend.syncs += 1
        keep = self.backend.before()
        if keep:
            self.backend.data[self.ns] = dict(self)
        await Pause()
        if keep is None:
            self.backend.data[self.ns] = dict(self)


class Backend:
    def __init__(self, form):
        self.data, self.syncs, self.form = {}, 0, form
        self.before = lambda: None

    def wire(self, v):
        """The payload as some browser storage returns it."""
        import json
        return {"str": lambda v: v, "bytes": lambda v: v.encode(), "view": lambda v: memoryview(v.encode()),
                "dict": lambda v: json.loads(v)}[self.form](v)

    async def open(self, ns):
        await Pause()
        return Handle(self, ns)


def run(coro):
    try:
        while True:
            coro.send(None)
    except StopIteration as ex:
        return ex.value


class World:
    def __init__(self, form, sep, names):
        self.be = Backend(form)
        self.sep, self.names = sep, names
        self.mem = {s: kv.FAMILIES[FAM[s]][0](sep) for s in FAM}
        self.ver = None
        self.cands = {s: [copy.deepcopy(self.mem[s])] for s in FAM}   # what may be persisted
        self.vcands = [None]
        self.flagc = {s: [None] for s in FAM}
        self.flags = {s: None for s in FAM}
        self.window = []
        self.depth = 0
        self.stat = dict(flush=0, change=0, odd=0, removed=0, looked=0)
        self.open(True)

    def snap(self):
        return ({s: copy.deepcopy(m) for s, m in self.mem.items()}, self.ver, dict(self.flags))

    def open(self, clear=False, req=(False,) * 4, where=""):
        from keri.db.webdbing import WebDBer
        self.be.before = lambda: None
        self.db = run(WebDBer.open("w", [s + "." for s in FAM], clear=clear, storageOpener=self.be.open))
        if clear:
            for s in FAM:
                self.cands[s] = [kv.FAMILIES[FAM[s]][0](self.sep)]
                self.flagc[s] = [None]
            self.vcands = [None]
        self.sub = {}
        for i, s in enumerate(FAM):
            self.sub[s] = self.db.env.open_db((s + ".").encode() if req[i] else s + ".", dupsort=req[i])
            got = self.sub[s].flags()
            want = [req[i] if f is None else f for f in self.flagc[s]]
            vf.check(got in [{"dupsort": f} for f in want], f"{where}flags of {s!r}: {got} want one of {want}")
            self.flags[s] = got["dupsort"]
            self.flagc[s] = [f for f in self.flagc[s] if (req[i] if f is None else f) == self.flags[s]]

    def op(self, s, o, where):
        r = kv.apply(FAM[s], self.db, self.sub[s], self.sep, self.mem[s], o, where)
        if o[0] in kv.MUTATORS and (r is True or type(r) is int):
            self.stat["change"] += 1
            self.stat["removed"] += o[0].startswith(("rem", "pin", "set"))
        for w in self.window:
            w.append(self.snap())

    def version(self, v):
        self.db.version = v
        self.ver = v.decode() if isinstance(v, bytes) else v
        vf.same(self.db.version, self.ver, "version")
        for w in self.window:
            w.append(self.snap())

    def reopen(self, clear, where, req=(False,) * 4):
        self.open(clear, req, where)
        for s in FAM:   # each sub-store holds one of the contents that may have been persisted
            got = kv.norm(kv.FAMILIES[FAM[s]][1]["dump"](self.db, self.sub[s], self.sep))
            ok = [m for m in self.cands[s] if kv.norm(m.dump()) == got]
            vf.check(ok, f"{where}sub-store {s!r} ({FAM[s]}) reopened with {vf.short(got)}, persisted was "
                     f"{vf.short([m.dump() for m in self.cands[s]])}")
            self.mem[s] = copy.deepcopy(ok[-1])
            self.cands[s] = [copy.deepcopy(m) for m in ok]
        vf.check(self.db.version in self.vcands, f"{where}version {self.db.version!r} want one of {self.vcands}")
        self.ver = self.db.version
        self.vcands = [self.ver]
        self.stat["looked"] += 1

    def flush(self, plan, where):
        plan = list(plan)
        start = [self.snap()]
        nested = self.depth > 0 or bool(self.window)
        self.window.append(start)
        self.depth += 1
        self.stat["flush"] += 1
        coro = self.db.flush()
        err = None
        n = 0
        overlapped = nested
        try:
            while True:
                out, during, inner = plan.pop(0) if plan else ("ok", [], False)
                state = {}
                outer = self.be.before
                self.be.before = lambda: {"ok": True, "late": None}.get(out, out == "failafter")
                try:
                    coro.send(None)
                    n += 1
                finally:
                    self.be.before = outer
                for s, o in during:
                    if s == "v":
                        self.version(o)
                    else:
                        self.op(s, o, where + "during a sync: ")
                    self.stat["odd"] += 1
                if inner and self.depth < 2:
                    overlapped = True
                    self.flush([], where + "inner flush: ")
                if out in ("fail", "failafter", "cancel"):
                    self.stat["odd"] += 1
                    try:
                        coro.throw(asyncio.CancelledError() if out == "cancel" else Boom())
                    except (Boom, asyncio.CancelledError) as ex:
                        err = ex
                        break
                    except StopIteration:
                        raise vf.Violation(f"{where}flush swallowed a failed sync")
                    raise vf.Violation(f"{where}flush went on after a failed sync")
        except StopIteration as ex:
            vf.check(type(ex.value) is int and ex.value == n, f"{where}flush returned {ex.value!r} after {n} syncs")
        self.window.remove(start)
        self.depth -= 1
        strict = err is None and not overlapped
        for s in FAM:
            seen = [w[0][s] for w in start]
            self.cands[s] = seen if strict else self.cands[s] + seen
            fl = [w[2][s] for w in start]
            self.flagc[s] = fl if strict else self.flagc[s] + fl
        vs = [w[1] for w in start]
        self.vcands = vs if strict else self.vcands + vs
        if strict and len(start) == 1:
            vf.same(run(self.db.flush()), 0, f"{where}a second flush with nothing new synced sub-stores")
        return err is None


store_op = st.one_of(*[st.tuples(st.just(s), kv.OPS[f]) for s, f in FAM.items()])
ver = st.sampled_from(["1.0.0", "1.2.3-rc1", b"2.0.0", ""])
wop = vf.weighted((9, store_op), (1, st.tuples(st.just("v"), ver)))
hook = st.tuples(st.sampled_from(["ok", "ok", "late", "late", "fail", "failafter", "cancel"]),
                 st.lists(wop, max_size=3), st.sampled_from([False, False, False, True]))
req = st.tuples(*[st.booleans()] * 4)
flush = st.tuples(st.just("flush"), st.lists(hook, max_size=4))
step = vf.weighted((16, st.tuples(st.just("op"), wop)), (4, flush), (2, st.tuples(st.just("flush"), st.just([]))),
                   (2, st.tuples(st.just("reopen"), st.sampled_from([False] * 7 + [True]), req)),
                   (1, st.tuples(st.just("close"), st.booleans(), req)))


@vf.leg(LEGS, st.tuples(st.sampled_from(["str", "str", "bytes", "view", "dict"]), st.sampled_from(kv.SEPS), kv.seqs(step, 30)),
        quick=6000, thorough=200000, dd=True)
def durable(c):
    form, sep, steps = c
    w = World(form, sep, None)
    for i, x in enumerate(steps):
        where = f"step {i} {x[0]}: "
        if x[0] == "op":
            w.version(x[1][1]) if x[1][0] == "v" else w.op(x[1][0], x[1][1], where)
        elif x[0] == "flush":
            w.flush(x[1], where)
        elif x[0] == "close":
            old = w.db
            old.close(clear=x[1])
            vf.same(old.stores, [], f"{where}stores after close")
            w.reopen(False, where, x[2])
        else:
            w.reopen(x[1], where, x[2])
    # whatever happened, one more flush covers everything in memory
    vf.check(w.flush([], "final: "), "final flush failed")
    w.reopen(False, "final: ")
    for s in FAM:
        kv.compare_dump(FAM[s], w.db, w.sub[s], sep, w.mem[s], "after the final reopen: ")
    t = w.stat
    if t["flush"] >= 2 and t["change"] >= 3 and (t["odd"] or t["removed"]):
        return [form] + [k for k in ("odd", "removed") if t[k]]
