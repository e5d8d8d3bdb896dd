"""E11: a crash at any write costs nothing but doing again what was being done."""
import shutil
import tempfile
from hypothesis import strategies as st
import vf
from . import kel, e05

RULE = ("valid histories, with recoveries and delegators, delivered whole or in pieces in a generated order with escrow processing, to a validator on disk "
        "which crashes at generated write commits, up to three times, is opened anew and given the interrupted message again. Non-trivial: a crash hit.")
ASSUMPTIONS = ["Ed25519 and BLAKE3 stand-ins compute the published algorithms", "lmdb replaced by a stand-in: a commit happens whole or not at all, in order"]
LEGS = []
CRASH = st.lists(st.tuples(st.integers(0, 30), st.integers(0, 16)), min_size=1, max_size=3, unique_by=lambda t: t[0])
REC = kel.rots(sw=None, fw=None, back=2).map(lambda o: dict(o, nn=max(1, o["nn"]), a=[], then=True, k=None))


class Disk:
    """a validator on disk which may crash"""

    def __init__(self, path):
        self.args = dict(db=dict(name="disk", headDirPath=path, temp=False, reopen=True))
        self.val = kel.Val(**dict(self.args, db=dict(self.args["db"])))
        self.hits = 0

    def again(self):
        self.val.db.close()
        self.val = kel.Val(**dict(self.args, db=dict(self.args["db"])))

    def act(self, fn, at=None):
        """does fn, crashing at the at-th commit, then again after opening anew"""
        import lmdb
        lmdb._vf_fault(at)
        try:
            fn(self.val)
            return False
        except lmdb._VfCrash:
            lmdb._vf_fault(None)
            self.hits += 1
            self.again()
            return True
        finally:
            lmdb._vf_fault(None)

    def close(self):
        self.val.close()


@st.composite
def scenes(draw):
    c = draw(e05.deliveries(size=0))
    return dict(c, crash=draw(CRASH), again=draw(st.booleans()))


def run(c, msgs, steps, check, end):
    tmp = tempfile.mkdtemp(prefix="e11")
    d = None
    try:
        d = Disk(tmp)
        at = dict(c["crash"])
        for n, (what, fn) in enumerate(steps):
            hit = d.act(fn, at.get(n % 31) if n < 31 else None)
            if hit:
                check(d.val, f"after a crash at commit {at[n]} of {what}")
                fn(d.val)
        d.again()
        end(d.val)
        return d.hits
    finally:
        if d:
            d.close()
        shutil.rmtree(tmp, ignore_errors=True)


@vf.leg(LEGS, scenes(), quick=900, thorough=40000)
def converges(c):
    """At the end all is as if there had been no crash, and after each crash the log is lawful."""
    out, model, ctl = kel.author(c["ops"])
    msgs = [m for m, acc in out if acc]
    if ctl.pre is None:
        return None
    steps = []
    for n, (i, b) in enumerate(e05.arrange(c, msgs)):
        steps.append((f"delivery {n} (event {i})", lambda v, b=b: v.give(b)))
        if c["esc"] and n % c["esc"] == 0:
            steps.append((f"escrow processing {n}", lambda v: v.escrows(1)))
    steps += [("last escrow processing", lambda v: v.escrows(1))] * 2
    pool = kel.Pool()
    for m in msgs:
        pool.add(m)
    fel = []

    def check(v, what):
        fel[:], _ = kel.lawful(v, pool, ctl.pre, fel, what)

    def end(v):
        v.escrows(2 * len(msgs) + 4)
        kel.compare(v, model, ctl.pre, "at the end")
        kel.audit(v, model, ctl.pre, "at the end", {m.sad["d"]: (m.sigs, m.wigs) for m in msgs})
    if run(c, msgs, steps, check, end):
        return [f"{len(msgs)} events", "in pieces" if len(steps) > 2 * len(msgs) else "whole"]


@st.composite
def recoveries(draw):
    ops = [draw(e05.ICP)] + draw(st.lists(vf.weighted((2, REC), (3, e05.IXN)), min_size=1, max_size=7))
    return dict(ops=ops, crash=draw(CRASH))


@vf.leg(LEGS, recoveries(), quick=600, thorough=25000)
def recovers(c):
    """The same with recovery rotations, in order."""
    out, model, ctl = kel.author(c["ops"])
    msgs = [m for m, acc in out if acc]
    if ctl.pre is None:
        return None
    pool, fel = kel.Pool(), []
    for m in msgs:
        pool.add(m)

    def check(v, what):
        fel[:], _ = kel.lawful(v, pool, ctl.pre, fel, what)
    steps = [(f"event {i} ({m.sad['t']} sn={m.sad['s']})", lambda v, m=m: v.give(m.stream())) for i, m in enumerate(msgs)]
    if run(c, msgs, steps, check, lambda v: kel.compare(v, model, ctl.pre, "at the end")):
        return "displaced" if any(len(v) > 1 for v in model.logs[ctl.pre].at.values()) else "plain"
