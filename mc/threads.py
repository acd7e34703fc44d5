"""Systematic exploration of thread schedules on the real library.

Two real threads execute library operations under a controlled scheduler: only
one of them ever runs.  A schedule is a list of preemption points; a point is a
line of library code about to be executed by a thread.  Lines that can touch
nothing but the thread's own locals commute with everything the other thread
does, so preempting there is equivalent to preempting at the next line that can
touch shared state; only the latter are enumerated (partial order reduction).
Every schedule runs in a forked process, from the same initial state."""
import dis
import os
import sys
import threading
import types

import numpy as np

from . import core

HANDOFF = 0.5   # a thread silent for this long is waiting for the other one
JOIN = 60.0
PRIVATE = (types.FunctionType, types.BuiltinFunctionType, types.ModuleType, type, int, float, complex, str, bytes, bool,
           type(None), types.MethodType, frozenset)
PLAIN = {float, int, str, bool, complex, type(None), np.float64, np.ufunc, types.ModuleType, types.BuiltinFunctionType}


def shareable(v):
    """can this value be changed by another thread?"""
    if type(v) in PLAIN:
        return False
    if isinstance(v, np.ufunc) or isinstance(v, np.generic):
        return False
    if isinstance(v, PRIVATE):
        return bool(getattr(v, "__dict__", None)) and isinstance(v, types.FunctionType)
    if isinstance(v, tuple):
        return any(shareable(q) for q in v)
    return True


_LINES = {}   # id(code) -> summary
_REBOUND = {}


def all_code(module_globals):
    """every piece of code of a module"""
    seen, todo = {}, []
    for v in list(module_globals.values()):
        for f in (list(vars(v).values()) if isinstance(v, type) else [v]):
            f = getattr(f, "__wrapped__", f)
            f = getattr(f, "__func__", getattr(f, "fget", f))
            c = getattr(f, "__code__", None)
            if isinstance(c, types.CodeType) and getattr(f, "__globals__", None) is module_globals:
                todo.append(c)
    while todo:
        c = todo.pop()
        if id(c) not in seen:
            seen[id(c)] = c
            todo += [k for k in c.co_consts if isinstance(k, types.CodeType)]
    return list(seen.values())


_warm = False


def warm():
    """look at all code once, before any process is forked"""
    global _warm
    if _warm:
        return
    _warm = True
    for m in list(sys.modules.values()):
        f = getattr(m, "__file__", None)
        if f and f.startswith(core.REPO_PKG):
            for c in all_code(vars(m)):
                for line in summary(c):
                    static_at(c, vars(m), line)


def rebound(module_globals):
    """names of a module that some function rebinds at run time"""
    key = module_globals.get("__name__")
    if key not in _REBOUND:
        out = set()
        for c in all_code(module_globals):
            out |= {i.argval for i in dis.get_instructions(c) if i.opname in ("STORE_GLOBAL", "DELETE_GLOBAL")}
        _REBOUND[key] = out
    return _REBOUND[key]


def summary(code):
    """line -> (writes shared?, names read, touches attributes or elements?)"""
    out = _LINES.get(id(code))
    if out is not None:
        return out
    out, line = {}, None
    free = set(code.co_freevars)
    prev = None
    for ins in dis.get_instructions(code):
        if ins.starts_line is not None:
            line = ins.starts_line if not isinstance(ins.starts_line, bool) else ins.line_number
        d = out.setdefault(line, {"write": False, "inplace": False, "fast": set(), "glob": set(), "deref": set(), "deep": False})
        o = ins.opname
        if o in ("STORE_ATTR", "DELETE_ATTR", "STORE_GLOBAL", "DELETE_GLOBAL", "STORE_SUBSCR", "DELETE_SUBSCR", "STORE_SLICE"):
            d["write"] = True
        elif o in ("STORE_DEREF", "DELETE_DEREF"):
            d["write"] |= ins.argval in free
        elif o == "BINARY_OP" and "=" in (ins.argrepr or ""):
            d["inplace"] = True
        elif o.startswith("LOAD_FAST") and isinstance(ins.argval, str):
            d["fast"].add(ins.argval)
        elif o.startswith("LOAD_FAST"):
            d["fast"] |= set(ins.argval)
        elif o == "LOAD_GLOBAL" or o == "LOAD_NAME":
            d["glob"].add(ins.argval)
        elif o in ("LOAD_DEREF", "LOAD_CLASSDEREF"):
            (d["deref"] if ins.argval in free else d["fast"]).add(ins.argval)
        elif o in ("LOAD_ATTR", "LOAD_METHOD", "BINARY_SUBSCR", "CONTAINS_OP", "BINARY_SLICE", "LOAD_SUPER_ATTR", "GET_ITER"):
            d["deep"] = True
    _LINES[id(code)] = out
    _KEEP.append(code)  # its id stays its own
    return out


_STATIC, _KEEP = {}, []


def static_at(code, g, line):
    """True: always visible; False: never; else the names to look at"""
    key = (id(code), line)
    if key in _STATIC:
        return _STATIC[key]
    d = summary(code).get(line)
    if d is None or d["write"]:
        out = True
    else:
        out = any(n in g and (shareable(g[n]) or n in rebound(g)) for n in d["glob"])
        if not out:
            names = set(d["deref"])
            if d["deep"] or d["inplace"]:
                names |= d["fast"]
            out = (tuple(names), d["deref"], d["inplace"]) if names else False
    _STATIC[key] = out
    return out


def visible(frame):
    key = (id(frame.f_code), frame.f_lineno)
    s = _STATIC.get(key)
    if s is None:
        s = static_at(frame.f_code, frame.f_globals, frame.f_lineno)
    if s is True or s is False:
        return s
    names, deref, inplace = s
    loc = frame.f_locals
    for n in names:
        v = loc.get(n)
        # elements of arrays a function was given or made are only at risk
        # when it writes to them
        if type(v) in PLAIN or (type(v) is np.ndarray and not inplace and n not in deref):
            continue
        if shareable(v):
            return True
    return False


_FRAMES = {}


def silent(frame):
    """no line of this call can touch anything shared"""
    code = frame.f_code
    s = _FRAMES.get(id(code))
    if s is None:
        names, s = set(), None
        for line in summary(code):
            st = static_at(code, frame.f_globals, line)
            if st is True or (st is not False and set(st[0]) - st[1]):
                s = False
                break
            if st is not False:
                names |= set(st[0])
        if s is None:
            s = tuple(names)
        _FRAMES[id(code)] = s
        _KEEP.append(code)
    if s is False:
        return False
    if s:
        loc = frame.f_locals
        return all(type(loc.get(n)) in PLAIN or not shareable(loc.get(n)) for n in s)
    return True


class Watch:
    """decides which line events of one thread are points: visible lines, and
    whatever comes right after a line that writes"""

    def __init__(self):
        self.wrote = False

    def point(self, frame):
        out = self.wrote or visible(frame)
        self.wrote = False
        if out:
            d = summary(frame.f_code).get(frame.f_lineno)
            self.wrote = d is not None and (d["write"] or d["inplace"])
        return out


class Counter(Watch):
    """counts the points of one operation run alone"""

    def __init__(self):
        super().__init__()
        self.n = 0
        self.where = []

    def trace(self, frame, event, arg):
        if event == "call" and (not frame.f_code.co_filename.startswith(core.REPO_PKG) or silent(frame)):
            return None
        if event == "line" and self.point(frame):
            self.n += 1
            self.where.append((os.path.basename(frame.f_code.co_filename), frame.f_lineno))
        return self.trace


def points(op):
    c = Counter()
    sys.settrace(c.trace)
    try:
        op()
    finally:
        sys.settrace(None)
    return c.n


class Thread(Watch):
    def __init__(self, op, stops):
        super().__init__()
        self.op, self.stops = op, list(stops)
        self.n = 0
        self.go = threading.Semaphore(0)
        self.said = threading.Semaphore(0)   # stopped at a point, or ended
        self.ended = False
        self.result = None
        self.thread = threading.Thread(target=self.body, daemon=True)
        self.started = False

    def trace(self, frame, event, arg):
        if event == "call" and (not frame.f_code.co_filename.startswith(core.REPO_PKG) or silent(frame)):
            return None
        if event == "line" and self.stops and self.point(frame):
            self.n += 1
            if self.n == self.stops[0]:
                self.stops.pop(0)
                if not self.stops:
                    # nothing left to stop at: run at full speed
                    f = frame
                    while f is not None:
                        f.f_trace = None
                        f = f.f_back
                    sys.settrace(None)
                self.said.release()
                self.go.acquire()
        return self.trace if self.stops else None

    def body(self):
        self.go.acquire()
        if self.stops:
            sys.settrace(self.trace)
        try:
            self.result = ("ok", self.op())
        except BaseException as ex:  # noqa: BLE001
            self.result = ("error", "%s: %s" % (type(ex).__name__, str(ex)[:300]))
        finally:
            sys.settrace(None)
            self.ended = True
            self.said.release()

    def run(self):
        """until its next stop or its end; False if it waits for the other"""
        if self.ended:
            return True
        if not self.started:
            self.started = True
            self.thread.start()
        self.go.release()
        return self.said.acquire(timeout=HANDOFF)


def execute(ops, stops):
    """one schedule; stops[k] are the points at which thread k is preempted.
    The threads take turns, thread 0 first."""
    ts = [Thread(o, s) for o, s in zip(ops, stops)]
    blocked = [False, False]
    k = 0
    while not all(t.ended for t in ts):
        t = ts[k]
        if not t.ended:
            if blocked[k]:
                if not t.said.acquire(timeout=JOIN):
                    return [("error", "deadlock")] * 2
                blocked[k] = False
            elif not t.run():
                blocked[k] = True
                if ts[1 - k].ended:
                    if not t.said.acquire(timeout=JOIN):
                        return [("error", "deadlock")] * 2
                    blocked[k] = False
        k = 1 - k
    for t in ts:
        t.thread.join(JOIN)
    return [t.result for t in ts]
