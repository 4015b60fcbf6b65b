"""start_log/stop_log: any sequence leaves at most one stream handler."""
from ..engine import alternatives, cval, is_const, show
from ..lib import decide, fname, guard_polar, loc, run, short
from ..model import AnalysisBroken, ModVar
from .c03 import sub

RULE = (
    "Typestate of the module-level stream handler: start_log may attach a "
    "handler only on paths where none is recorded and must record exactly "
    "the attached object; stop_log must detach exactly the recorded object "
    "on every path where one is recorded and must clear the record; "
    "start_log must not clear it.  Together these make every history of "
    "calls end with zero or one attached handler.")
MIN = 2
L = "hftools.logger:"


HV = [None]      # name of the module variable that records the handler


def handler_var(t):
    return t.op == "ent" and isinstance(t.args[0], ModVar) and \
        t.args[0].name == HV[0]


def record_name(prog, start, stop):
    """the global both functions work on: assigned in one of them and a
    constant (nothing recorded) at import"""
    names = []
    for fi in (start, stop):
        eng, _ = run(prog, fi)
        names += [e.name for e in evs(eng, "assign_global")
                  if not (e.val is not None and is_const(e.val) and
                          cval(e.val) in (True, False) and
                          cval(e.val) is not None)]
    for n in names:
        if names.count(n) == max(map(names.count, names)):
            return n
    return None


def unknown(guards):
    """a condition about handlers that the rule can not evaluate"""
    return any(state_of(((c, p),)) is None and any(
        x.op == "attr" and x.args[1] in ("handlers", "hasHandlers") or
        x.op == "call" and any(handler_var(a) for a in x.args[1])
        for x in sub(c))
        for c, p in guards)


def verdict(ok, guards, rep, *a):
    """an obligation that fails with a condition the rule does not know is
    undecided, not violated"""
    if not ok and unknown(guards):
        ok = None
    rep.ob(a[0], a[1], ok, a[2], "" if ok else a[3])


def state_of(guards):
    """True: recorded, False: none recorded, None: unknown."""
    def assume(v):
        def f(c):
            if handler_var(c):
                return v
            if c.op == "isinstance" and handler_var(c.args[0]):
                return v
            if c.op == "cmp" and len(c.args) == 3 and any(
                    is_const(x) and cval(x) is None for x in c.args[1:]) and \
                    any(handler_var(x) for x in c.args[1:]):
                isn = c.args[0] in ("Is", "Eq")
                return (not v) if isn else v
            return None
        return f
    poss = []
    for v in (True, False):
        if all(decide(c, assume(v)) in (None, p) for c, p in guards):
            poss.append(v)
    return poss[0] if len(poss) == 1 else None


def evs(eng, kind):
    return [e for e in eng.events if e.kind == kind]


def meth(e, name):
    return e.kind == "call" and short(e.obj) == name


def check(prog, rep, tier):
    start, stop = prog.func(L + "start_log"), prog.func(L + "stop_log")
    rep.analysed(start, stop)
    HV[0] = record_name(prog, start, stop)
    eng, res = run(prog, start)
    if HV[0] is None:
        for e in eng.events:
            if meth(e, "addHandler") and not e.guards and not e.trys:
                rep.bad("start-guard", start, e.loc, "a handler is attached "
                        "on every call")
        rep.unsure("start-records", start, loc(start), "no module variable "
                   "records the handler")
        return
    adds = [e for e in eng.events if meth(e, "addHandler")]
    sets = [e for e in evs(eng, "assign_global")
            if e.name == HV[0]]
    rep.ob("start-attaches", start, bool(adds), loc(start),
           "" if adds else "start_log attaches no handler")
    for e in adds:
        s = state_of(e.guards)
        verdict(s is False, e.guards, rep, "start-guard", start, e.loc,
                "a handler is attached although one may already be attached")
        h = e.args[0] if e.args else None
        rec = [x for x in sets if h is not None and (
            x.val is h or handler_var(h) or h in alternatives(x.val))]
        made = [x for x in eng.events if x.kind == "call" and x.res is h]
        if len(made) > 1:     # two separately made handlers
            rec = []
        rep.ob("start-records", start, bool(rec), e.loc, "" if rec else
               "the attached handler is not the recorded one")
    for e in sets:
        if is_const(e.val) and not cval(e.val):
            rep.bad("start-records", start, e.loc,
                    "start_log clears the record")
        s = state_of(e.guards)
        verdict(s is False, e.guards, rep, "start-keeps", start, e.loc,
                "the recorded handler is replaced while still attached")
    eng, res = run(prog, stop)
    rem = [e for e in eng.events if meth(e, "removeHandler")]
    clr = [e for e in evs(eng, "assign_global")
           if e.name == HV[0]]
    ok = any(e.args and handler_var(e.args[0]) and covers(e.guards)
             for e in rem)
    if not ok and any(unknown(e.guards) for e in rem):
        ok = None
    rep.ob("stop-detaches", stop, ok, loc(stop), "" if ok else
           "the recorded handler is not removed on every path")
    ok = any(is_const(e.val) and cval(e.val) is None and covers(e.guards)
             for e in clr)
    if not ok and any(unknown(e.guards) for e in clr):
        ok = None
    rep.ob("stop-clears", stop, ok, loc(stop), "" if ok else
           "the record is not cleared on every path that detaches")
    for e in clr:
        for r in rem:
            if r.seq > e.seq and not (r.args and not handler_var(r.args[0])):
                rep.ob("stop-order", stop, None, e.loc)


def covers(guards):
    """The guards hold whenever a handler is recorded."""
    def f(c):
        if handler_var(c):
            return True
        if c.op == "cmp" and len(c.args) == 3 and any(
                is_const(x) and cval(x) is None for x in c.args[1:]) and \
                any(handler_var(x) for x in c.args[1:]):
            return c.args[0] not in ("Is", "Eq")
        return None
    return all(decide(c, f) is p for c, p in guards)
