"""Verification tasks: one function of /repo against its contract."""
import time
import traceback

import z3

from .engine import Engine, State, Obligation, LostAnnotation
from .loader import Repo
from .values import Func, Unsupported, Ref, Inst, ClassV

TASKS = []


class Task:
    """build(c): sets up symbolic inputs, runs the function and states its postconditions."""

    def __init__(self, props, func, build, clause="", native=False, setup=None, timeout=20.0, weight=1):
        self.props = props if isinstance(props, (list, tuple)) else [props]
        self.func, self.build, self.clause, self.native, self.setup, self.timeout = func, build, clause, native, setup, timeout
        self.weight = weight
        self.name = func + ((" - " + clause) if clause else "")


def task(props, func, clause="", **kw):
    def deco(f):
        TASKS.append(Task(props, func, f, clause, **kw))
        return f
    return deco


class Ctx:
    """What a task's build function works with."""

    def __init__(self, eng, t):
        self.eng, self.t = eng, t
        self.repo = eng.repo

    def func(self, qual=None, self_=None):
        r = self.repo.find(qual or self.t.func)
        if r is None:
            raise Unsupported("function %s not found" % (qual or self.t.func))
        mod, cls, node = r
        return Func(mod, cls, node, self_)

    def cls(self, modname, name):
        return self.repo.module(modname).classes[name]

    def run(self, st, args=(), kwargs=None, qual=None, self_=None):
        """(returns [(st, value)], raises [(st, Exc)]) of the function's current body."""
        f = self.func(qual, self_)
        eng = self.eng
        eng.sink = []
        rets = eng.inline(st, f, list(args), dict(kwargs or {}), None, top=True)
        raises, eng.sink = eng.sink, []
        return rets, raises

    def prove(self, st, goal, name, **kw):
        self.eng.prove(st, goal, name, None, **kw)

    def cover(self, st, name):
        o = Obligation("cover: " + name, st.facts + st.pc, None, self.eng.task, None)
        self.eng.obls.append(o)

    covering = True

    def cover_any(self, st, name):
        """One of the paths with this name has to be reachable."""
        if self.covering:
            self.eng.obls.append(Obligation("cover any: " + name, st.facts + st.pc, None, self.eng.task, None))

    def inst(self, st, modname, clsname, fields):
        return self.eng.alloc(st, Inst(self.cls(modname, clsname), dict(fields)))

    def new(self, st, modname, clsname, args=(), kwargs=None):
        return self.eng.construct(st, ClassV(self.cls(modname, clsname)), list(args), dict(kwargs or {}), None)


class Result:
    def __init__(self, t):
        self.task = t
        self.obls, self.covers = [], []
        self.undecided = []       # reasons why the proof attempt says nothing
        self.error = None
        self.gen_s = 0.0
        self.inlined = self.summaries = self.ext = ()


def generate(t, repo=None):
    r = Result(t)
    t0 = time.time()
    try:
        repo = repo or Repo()
        eng = Engine(repo)
        eng.native = t.native
        eng.split_returns = t.native
        eng.task = t.name
        c = Ctx(eng, t)
        if t.setup:
            t.setup(eng)
        t.build(c)
        r.obls = [o for o in eng.obls if o.goal is not None]
        r.covers = [o for o in eng.obls if o.goal is None]
        r.undecided += ["loop annotation: %s" % x for x in dict.fromkeys(eng.lost)]
        r.inlined, r.summaries, r.ext = sorted(eng.inlined), sorted(eng.used_summaries), sorted(eng.used_ext)
    except (Unsupported, LostAnnotation) as e:
        r.undecided.append("outside the verifier's subset: %s" % e)
    except KeyError as e:
        r.undecided.append("function or name not found: %s" % e)
        r.error = traceback.format_exc()
    except Exception as e:
        r.undecided.append("verifier error: %s: %s" % (type(e).__name__, e))
        r.error = traceback.format_exc()
    r.gen_s = time.time() - t0
    return r
