"""Opens of documents that lead back to themselves (C03): whatever they hold, the call ends."""
import net
import odd
import snap
import world as W
from machine import Outcomes, open_all


def ends(m, job):
    """job["odd"] = {"seed", "kind"}; a healthy filing is opened afterwards in the same process"""
    from s_files import Verdict, setup
    v = Verdict()
    rows, ok = setup(m, job, v)
    if not ok:
        return v.out()
    o = odd.make(job["odd"])
    m.install(o)
    for a, b in o.redirects.items():
        m.w.servers[net.key(a)] = net.Resource(b"", redirect=b)
    refs = {e: r for _, e, r in rows}
    healthy = [e for _, e, _ in rows][:1]
    paths = list(o.entries) + healthy + list(o.entries[:1])
    # (only the healthy one is looked at: walking along circular relationships need not end)
    status, outs = open_all(m, paths, only=healthy)
    if status[0] in ("hang", "stuck", "died"):
        v.bad("hang" if status[0] != "died" else "died", "opening %s (%s) did not end: %s" % (o.entries, o.kind, status[1]))
        return v.out()
    for what, st, value, d in outs:
        v.probe("%s %s" % (o.kind, st))
        if what in refs:
            if st != "ok":
                v.bad("stuck", "after opening %s, opening the healthy filing %s raised %s" % (o.entries, what, value))
            elif "!" in value or snap.diff(refs[what].value, value, "filing"):
                v.bad("wrong", "after opening %s, opening the healthy filing %s gives another filing" % (o.entries, what))
        if st == "raise" and "MemoryError" in value:
            v.bad("hang", "opening %s used up the memory" % what)
    return v.out()


SCENARIOS = {"ends": ends}
