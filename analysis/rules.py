"""Rule engine: obligations over the interpreter's path summaries, tagged with the properties they are necessary for."""
import os
import signal
import time
import traceback
from .terms import *
from .absint import *
from .absint import Path, Loop
from .spec import Env, N, same, Missing, Gone

RULES = []          # (id, props, text, function)


def rule(id, props, text):
    def d(f):
        RULES.append((id, tuple(props.split()), text, f))
        return f
    return d


class Late(Exception):
    pass


def _late(*_):
    raise Late()


class Finding:
    def __init__(self, rid, msg, loc, path=None):
        self.rid, self.msg, self.loc, self.path = rid, msg, loc, path

    def key(self):
        return (self.rid, self.msg)


class Ctx:
    """shared by all rules of one run: the program, the analysed functions, the findings"""

    def __init__(self, prog):
        self.p = prog
        self.cache = {}
        self.findings = []
        self.undecided = []  # (rule, reason): code the analysis cannot follow
        self.obl = 0
        self.other = 0      # obligations of other properties met on the way
        self.rid = None
        self.fns = {}
        self.npaths = 0
        self.stats = {}
        self.samples = []
        self.prop = None
        self.scope = None

    def skip(self):
        """is the current obligation about other properties than the one being decided?"""
        return self.prop is not None and self.scope is not None and self.prop not in self.scope

    def inlined(self):
        out = set()
        for a in self.cache.values():
            if isinstance(a, Analysed):
                out |= a.ip.inlined
        return out

    def fn(self, key, names=None, bounds=(), pick=None, traced=(), tag=""):
        k = (key, tuple(names or ()), id(bounds) if not isinstance(bounds, tuple) else bounds, pick, traced)
        r = self.cache.get(k)
        if r is None:
            try:
                r = Analysed(self, key, names, bounds, pick, traced)
            except (Missing, Undecided) as e:
                r = e
            except Late:
                self.cache[k] = Undecided("%s takes too long to analyse" % key)
                raise
            except (MemoryError, RecursionError) as e:
                r = Undecided("%s is too large to analyse" % key)
            self.cache[k] = r
        if isinstance(r, Exception):
            raise r
        r.used_by(self.rid)
        return r

    def check(self, cond, msg, loc=None, path=None, props=None):
        if props is not None:
            keep, self.scope = self.scope, props
            try:
                return self.check(cond, msg, loc, path)
            finally:
                self.scope = keep
        if self.skip():
            self.other += 1
            return bool(cond)
        self.obl += 1
        if len(self.samples) < 12 and self.obl % 97 == 1:
            self.samples.append("%s: %s (%s)" % (self.rid, msg, loc))
        if not cond:
            self.fail(msg, loc, path)
        return bool(cond)

    def moot(self, why):
        """part of a rule that does not apply to this code"""
        if (self.rid, why) not in self.undecided:
            self.undecided.append((self.rid, why))

    def fail(self, msg, loc=None, path=None):
        if self.skip():
            return
        f = Finding(self.rid, msg, loc, path)
        f.props = self.scope
        if all(f.key() != g.key() for g in self.findings):
            self.findings.append(f)

    def run(self, prop=None, only=None, budget=None, total=None):
        self.prop = prop
        start = time.time()
        for rid, props, text, f in RULES:
            if prop is not None and prop not in props:
                continue
            if only is not None and not rid.startswith(only):
                continue
            self.rid = rid
            self.scope = None
            o0, n0, t0 = self.obl, self.other, time.time()
            if budget:
                signal.signal(signal.SIGALRM, _late)
                signal.alarm(max(5, min(budget, int(start + total - time.time()))) if total else budget)
            try:
                f(self)
            except Missing as e:
                self.undecided.append((rid, "anchor not found: %s" % e))
            except Undecided as e:
                self.undecided.append((rid, "not decidable on this code: %s" % e))
            except Late:
                self.undecided.append((rid, "the analysis of this code exceeds its time budget"))
            except Exception as e:
                self.undecided.append((rid, "the analysis does not understand this code: %s" % "".join(traceback.format_exception_only(e)).strip()))
                if os.environ.get("UFLOW_DEBUG"):
                    traceback.print_exc()
            finally:
                if budget:
                    signal.alarm(0)
            self.stats[rid] = (self.obl - o0, time.time() - t0)
            if self.obl == o0 and self.other == n0 and all(r != rid for r, _ in self.undecided):
                self.fail("the rule matched no site")


def events_after(path):
    """events of the last segment of a path (after the last loop header)"""
    out = []
    for e in path.events():
        if e.kind == "loop":
            out = []
        else:
            out.append(e)
    return out


# representation invariants assumed when a method is entered; the safe.* rules show that constructors establish and methods keep them
GIVEN = {
    "half_connection::frame_queue::FrameQueue": ["m32(self.frame_log.next_id - self.frame_log.base_id) == len(self.frame_log.frames)"],
}


class Analysed:
    """path summary of one function under a given abstraction boundary"""

    def __init__(self, ctx, key, names, bounds, pick, traced):
        self.c, self.key = ctx, key
        f = ctx.p.fn(key, pick)
        if f is None:
            raise Missing("function %s" % key)
        self.f = f
        self.ip = Interp(ctx.p, bounds)
        self.ip.traced = traced
        if names is None:
            names = [f.names.get(i + 1, "arg%d" % (i + 1)) for i in range(f.argc)]
        if len(names) < f.argc:
            raise Missing("%s takes %d parameters, not %d" % (key, f.argc, len(names)))
        self.names = list(names)
        self.st0 = St({}, Facts(), None)
        self.env0 = Env(self.ip, self.st0, {}, self.st0)
        self.env0.names = self._binds()
        self.paths = self.ip.run(f, names=names, facts=self._given())
        ctx.npaths += len(self.paths)
        if self.ip.unknown:
            raise Undecided("%s calls functions the analysis has no model of: %s" % (key, ", ".join(sorted(self.ip.unknown))))
        self.returns = [p for p in self.paths if p.kind == "return"]
        self.backs = [p for p in self.paths if p.kind == "back"]
        self.panics = [p for p in self.paths if p.kind == "panic"]
        self.users = set()

    def _binds(self):
        b = {}
        for i in range(self.f.argc):
            tid = self.f.locals[i + 1]
            t = self.c.p.types[tid]
            nm = self.names[i]
            b[nm] = N(ref(("O", sym(nm)), ()), tid) if t["k"] == "ref" else N(sym(nm, self.ip.rng_of(tid)), tid)
        return b

    def _given(self):
        """invariants of the component that hold whenever one of its methods is entered (shown by the safe.* rules)"""
        own = GIVEN.get(self.key.rsplit("::", 1)[0])
        if not own or self.names[:1] != ["self"]:
            return ()
        return tuple(self.env0(x) for x in own)

    def used_by(self, rid):
        self.users.add(rid)
        self.c.fns[self.key] = self.c.fns.get(self.key, 0) | 0

    # ---------------------------------------------------------- states and environments
    def env(self, st, old=None):
        return Env(self.ip, st, self.env0.names, old or self.st0)

    def retn(self, p):
        return N(p.ret, self.f.locals[0])

    def base(self, p):
        """state at the start of the path's last segment (function entry or last loop header)"""
        if p.kind == "back":
            return p.header
        for e in reversed(p.events()):
            if e.kind == "loop":
                return e.x.hst
        return self.st0

    def loops(self):
        out = []
        for p in self.paths:
            for e in p.events():
                if e.kind == "loop" and e.x not in out:
                    out.append(e.x)
        return out

    def loop_backs(self, L):
        return [p for p in self.backs if p.loop is L]

    def sval(self, L, s, st):
        """value of the loop symbol s of L in state st"""
        for (root, pth), s2 in L.syms.items():
            if s2 is s:
                return self.ip.read_names(st, root, pth)
        return None

    def counters(self, L, entry=None, step=1, bits=(64, 32, 20, 16)):
        """loop symbols that change by exactly `step` in every iteration (plainly or modulo a power of two), with their first value"""
        out = []
        for s in L.syms.values():
            e = L.entry.get(s)
            if e is None or e.op in ("agg", "bool", "ref"):
                continue
            if entry is not None and not same(e, entry, L.pre.facts):
                continue
            ok = bool(L.backs)
            for st in L.backs:
                v = self.sval(L, s, st)
                if v is None or not any(same(v, w, st.facts) for w in [add(s, I(step))] + [mod(b, add(s, I(step))) for b in bits]):
                    ok = False
                    break
            if ok:
                out.append((s, e))
        return out

    def loops_before(self, p, e=None):
        out = []
        for x in p.events():
            if x is e:
                break
            if x.kind == "loop":
                out.append(x.x)
        return out

    def seg(self, p):
        """events of the path after its last loop header (for a back path: since the header of its own loop)"""
        out = []
        for e in p.events():
            if e.kind == "loop":
                if p.kind != "back" or e.x is p.loop:
                    out = []
                continue
            out.append(e)
        return out

    def closures(self, e):
        """closure values passed to the call event e"""
        out = []
        for x in e.args:
            y = x
            if isinstance(y, T) and y.op == "ref":
                y = self.ip.read(St(e.mem, e.facts, None), y.a[0], y.a[1])
            if isinstance(y, T) and y.op == "agg" and isinstance(y.a[0], str) and y.a[0].startswith("closure:"):
                out.append(x)
        return out

    def call_closure(self, e, clo, args):
        """what the closure does if the callee calls it with args: paths (St, value, events) from the state of the call"""
        keep = self.ip.recs
        self.ip.recs = []
        out = []
        try:
            for s, v in self.ip.callval(None, St(dict(e.mem), e.facts, None), clo, args):
                out.append(Path("return", s, ret=v, loc=e.loc))
            self.c.npaths += len(out) + len(self.ip.recs)
            self.closure_panics = [q for q in self.ip.recs if getattr(q, 'kind', None) == 'panic']
        finally:
            self.ip.recs = keep
        return out

    def retain_iff(self, e, cond, **bind):
        """does the retain event keep exactly the elements x with cond?"""
        k = e.x["k"]
        src = e.x["src"]
        ok = bool(e.x["outs"])
        for s, v in e.x["outs"]:
            env = Env(self.ip, St(e.x["base"].mem, s.facts, None), dict(self.env0.names), self.st0)
            tid = env.elem_tid(e.args[0].a and self._ref_tid(e.args[0]))
            env = env.bind(x=N(self.ip.step_val(src, ("i", k, tid), s.facts), tid), **bind)
            ok = ok and same(v, env(cond), s.facts)
        return ok

    def _ref_tid(self, r):
        """type of the place a reference value points to"""
        for el in reversed(r.a[1]):
            if el[0] == "f":
                return el[2]
        root = r.a[0]
        for n, x in self.env0.names.items():
            if x.v.op == "ref" and x.v.a[0] == root:
                return self.env0.settle(x).tid
        raise Missing("type of %s" % show(r))

    def at(self, st, facts, old=None, **bind):
        """environment reading the memory of st under the given facts"""
        e = Env(self.ip, St(st.mem, facts, None), dict(self.env0.names), old or self.st0)
        return e.bind(**bind) if bind else e

    def unchanged(self, p, base, places, msg):
        eb, ef = self.at(base, p.facts), self.at(p.st, p.facts)
        for x in places:
            self.c.check(same(ef(x), eb(x), p.facts), msg % x, self.where(p), (p, ef(x), eb(x)))

    def where(self, p):
        return p.loc or "%s:%s" % (self.f.file, self.f.line)

    # ---------------------------------------------------------- obligations
    def prove(self, facts, g, msg, loc=None, p=None):
        return self.c.check(facts.prove(g), msg, loc or "%s:%s" % (self.f.file, self.f.line), p)

    def cases(self, cond="True", final=None, ret=None, frame=None, at="base", kinds=("return",), msg=None, paths=None, bind=None,
              need=True, let=None, holds=None):
        """on every path compatible with cond: the final value of each place is the stated one, places in `frame` keep
        their value, the result is `ret`.  Expressions are evaluated in the segment's start state."""
        n = 0
        for p in (paths if paths is not None else [q for q in self.paths if q.kind in kinds]):
            b = self.base(p) if at == "base" else self.st0
            eb = Env(self.ip, St(b.mem, p.facts, None), dict(self.env0.names), self.st0)
            if bind:
                eb = eb.bind(**bind)
            if let:
                for k, x in let.items():
                    eb = eb.bind(**{k: eb.term(x)})
            cnd = eb(cond)
            facts = p.facts.plus(cnd)
            if cnd is FALSE or facts.inconsistent():
                continue
            n += 1
            eb.st = St(b.mem, facts, None)
            ef = Env(self.ip, St(p.st.mem, facts, None), eb.names, b)
            for pl, want in (final or {}).items():
                got = ef(pl)
                w = eb(want) if isinstance(want, (str, T)) else want
                self.c.check(same(got, w, facts), "%s: when %s, %s must become %s" % (self.short(), cond, pl, want if isinstance(want, str) else show(want)),
                             self.where(p), (p, got, w))
            for pl in frame or ():
                self.c.check(same(ef(pl), eb(pl), facts), "%s: when %s, %s must stay unchanged" % (self.short(), cond, pl), self.where(p), (p, ef(pl), eb(pl)))
            if p.kind == "return":
                ef = ef.bind(ret=self.retn(p))
            for h in holds or ():
                try:
                    g = ef(h)
                except Gone:
                    raise
                except Missing as e:
                    self.c.check(False, "%s: when %s, %s does not apply (%s)" % (self.short(), cond, h, e), self.where(p), (p,))
                    continue
                self.c.check(facts.prove(g), "%s: when %s, it must hold that %s" % (self.short(), cond, h), self.where(p), (p, g))
            if ret is not None and p.kind == "return":
                w = eb(ret)
                self.c.check(same(p.ret, w, facts), "%s: when %s, the result must be %s" % (self.short(), cond, ret), self.where(p), (p, p.ret, w))
        if need:
            self.c.check(n > 0, "%s: no path for the case %s" % (self.short(), cond))
        return n

    def split(self, p, cond):
        """the path under each truth value of an entry-state condition: (path with the extended facts, truth value)"""
        g = self.at(self.st0, p.facts)(cond) if isinstance(cond, str) else cond
        for v, h in ((True, g), (False, bnot(g))):
            fx = p.facts.plus(h)
            if h is FALSE or fx.inconsistent():
                continue
            # numbers made of the condition are numbers now
            new = []
            for f in p.facts.items:
                m = {x: I(int(fx.prove(x.a[0]))) for x in subterms(f) if x.op == "b2i" and (fx.prove(x.a[0]) or fx.refute(x.a[0]))}
                if m:
                    y = self.ip.inst(f, m)
                    if y is not None and y is not TRUE:
                        new.append(y)
            if new:
                fx = fx.plus(*new)
            q = Path(p.kind, St(p.st.mem, fx, p.st.trace), p.ret, p.loop, p.msg, p.loc, p.header, p.x)
            yield q, v

    def fields(self, arg="self", *but):
        n = self.env0.settle(self.env0.names[arg])
        ty = self.c.p.types
        moved = self.c.p.layout.get((ty[n.tid]["name"], None), {})
        skip = set()
        for f in but:
            kind, x = moved.get(f, ("path", [f]))
            skip |= {tuple(x)} if kind == "path" else {(y,) for y in x.values()}

        def walk(tid, pre):
            out = []
            for f, ft in ty[tid]["variants"][0]["fields"]:
                q = pre + (f,)
                if q in skip:
                    continue
                out += walk(ft, q) if any(z[:len(q)] == q for z in skip) else [".".join((arg,) + q)]
            return out
        return walk(n.tid, ())

    def short(self):
        return "::".join(self.key.split("::")[-2:])

    def sel(self, pred, kinds=("return", "back", "panic")):
        """distinct events satisfying pred, with one path each"""
        seen, out = set(), []
        for p in self.paths:
            if p.kind not in kinds:
                continue
            for e in p.events():
                if id(e) not in seen and pred(e):
                    seen.add(id(e))
                    out.append((e, p))
        return out

    def only_if(self, pred, cond, what, at="event", need=True, bind=None):
        """every event satisfying pred happens only where cond holds (judged by the facts known at the event)"""
        evs = self.sel(pred)
        for e, p in evs:
            if e.facts.inconsistent():
                continue
            if at == "event":
                st = St(e.mem, e.facts, None)
            elif at == "entry":
                st = St({}, e.facts, None)
            else:
                st = St(self.base_of(e, p).mem, e.facts, None)
            env = Env(self.ip, st, self.env0.names, self.st0)
            if bind:
                env = env.bind(**bind(e))
            g = env(cond)
            self.c.check(e.facts.prove(g), "%s: %s only if %s" % (self.short(), what, cond), e.loc, (p, e, g))
        if need:
            self.c.check(len(evs) > 0, "%s: %s never happens" % (self.short(), what))
        return evs

    def base_of(self, e, p):
        b = self.st0
        for x in p.events():
            if x is e:
                return b
            if x.kind == "loop":
                b = x.x.hst
        return b

    def never(self, pred, what):
        evs = self.sel(pred)
        self.c.obl += 1
        for e, p in evs:
            if not e.facts.inconsistent():
                self.c.fail("%s: %s must not happen" % (self.short(), what), e.loc, (p, e))


# -------------------------------------------------------------- event selectors
def is_call(name):
    return lambda e: e.kind in ("call", "enter") and (e.name == name or e.name.endswith("::" + name))


def is_write(place):
    """write to a place below `place` given as name path, e.g. self.window"""
    parts = place.split(".")

    def f(e):
        if e.kind != "write":
            return False
        root, path = e.args
        if root[0] != "O" or show(root[1]) != parts[0]:
            return False
        names = [x[1] for x in path if x[0] == "f"]
        k = min(len(names), len(parts) - 1)
        return names[:k] == parts[1:1 + k]
    return f


def is_io(name):
    return lambda e: e.kind == "io" and e.name == name
