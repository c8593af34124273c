"""obligations, comparison of summaries, reporting and evidence"""
import ast
import json
import os
import signal
import sys
import time
import traceback
from .entry import *
from . import terms as T
from . import rinterp
from .models import mk

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class TimeOut(Exception):
    pass


def _alarm(*a):
    raise TimeOut()


# ------------------------------------------------------------------ terms
def amap(t, f, _memo=None):
    """rebuild t bottom-up, replacing atoms a for which f(a, args) is not
    None"""
    memo = {} if _memo is None else _memo

    def at(a):
        if a.id in memo:
            return memo[a.id]
        args = tuple(arg(x) for x in a.args)
        r = f(a, args)
        if r is None:
            if args == a.args:
                r = T.pred_(a) if a.boolean else T.of_atom(a)
            else:
                g = T.REBUILD.get(a.kind)
                r = g(a, *args) if g is not None \
                    else T.rebuild_default(a, args)
        memo[a.id] = r
        return r

    def arg(x):
        if isinstance(x, tuple):
            return tuple(arg(y) for y in x)
        if isinstance(x, Scalar):
            return go(x)
        return x

    def poly(p):
        tot = T.ZERO_R
        for m, c in p.items():
            x = num_(c)
            for i, e in m:
                x = T.mul(x, T.ipow(at(T.Atom.by_id[i]), e))
            tot = T.add(tot, x)
        return tot

    def go(t):
        if isinstance(t, Rat):
            n = poly(t.num)
            if len(t.den) == 1 and T.ONE_M in t.den:
                return n
            return T.div(n, poly(t.den))
        if isinstance(t, Ite):
            return T.ite(T.as_bool(at(t.pred)), go(t.hi), go(t.lo))
        if isinstance(t, Struct):
            k = 'struct', t
            if k not in memo:
                memo[k] = struct(t)
            return memo[k]
        return t

    def struct(t):
        if t.tag == 'lam':
            fr, dims, body = T.lam_open(t)
            body = amap(body, f, memo)
            dims = [amap(d, f, memo) for d in dims]
            return T.lam(fr, [None if d == T.NONE else d for d in dims],
                         body)
        return Struct(t.tag, arg(t.parts))
    return go(t)


def atoms_of(t, kinds=None, seen=None, out=None):
    """all atoms below t (through structs, lambdas and atom arguments)"""
    if out is None:
        out, seen = [], set()

    def arg(x):
        if isinstance(x, tuple):
            for y in x:
                arg(y)
        elif isinstance(x, Scalar):
            go(x)

    def at(a):
        if a.id in seen:
            return
        seen.add(a.id)
        if kinds is None or a.kind in kinds:
            out.append(a)
        for x in a.args:
            arg(x)

    def go(t):
        if isinstance(t, Rat):
            for p in (t.num, t.den):
                for m in p:
                    for i, e in m:
                        at(T.Atom.by_id[i])
        elif isinstance(t, Ite):
            if ('ite', t.fp) in seen:
                return
            seen.add(('ite', t.fp))
            at(t.pred)
            go(t.hi)
            go(t.lo)
        elif isinstance(t, Struct):
            if ('st', t.fp) in seen:
                return
            seen.add(('st', t.fp))
            arg(t.parts)
    arg(t)
    return out


def unclip(t):
    """forget the clamping of positions"""
    def f(a, args):
        if a.kind == 'clip':
            return args[0]
        return None
    return amap(t, f)


def short(t, n=220):
    try:
        s = T.show(t) if isinstance(t, Scalar) else str(t)
    except Exception as e:      # pragma: no cover
        s = repr(e)
    return s if len(s) <= n else s[:n] + '...'


def difference(a, b, depth=0):
    """smallest differing pair of sub-terms"""
    if depth > 40:
        return a, b
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        ds = [(x, y) for x, y in zip(a, b) if not _eq(x, y)]
        if len(ds) >= 1:
            return difference(ds[0][0], ds[0][1], depth + 1)
    if isinstance(a, Struct) and isinstance(b, Struct) and a.tag == b.tag \
            and len(a.parts) == len(b.parts):
        ds = [(x, y) for x, y in zip(a.parts, b.parts) if not _eq(x, y)]
        if ds:
            return difference(ds[0][0], ds[0][1], depth + 1)
    if isinstance(a, Ite) and isinstance(b, Ite) and a.pred is b.pred:
        if a.hi != b.hi:
            return difference(a.hi, b.hi, depth + 1)
        return difference(a.lo, b.lo, depth + 1)
    if isinstance(a, Rat) and isinstance(b, Rat):
        x, y = T.the_atom(a), T.the_atom(b)
        if x is not None and y is not None and x.kind == y.kind and \
                len(x.args) == len(y.args):
            ds = [(p, q) for p, q in zip(x.args, y.args) if not _eq(p, q)]
            if ds:
                return difference(ds[0][0], ds[0][1], depth + 1)
    return a, b


def _eq(x, y):
    if isinstance(x, tuple) and isinstance(y, tuple):
        return len(x) == len(y) and all(_eq(p, q) for p, q in zip(x, y))
    return type(x) == type(y) and x == y or \
        (isinstance(x, Scalar) and isinstance(y, Scalar) and x == y)


def undecided(t):
    """names of the parts of a term the analysis could not decide"""
    if isinstance(t, tuple):
        r = frozenset()
        for x in t:
            r |= undecided(x)
        return r
    if isinstance(t, Scalar):
        return frozenset(t.unk)
    return frozenset()


# ------------------------------------------------------------- summaries
class Summary:
    """what the analysis found out about one function on symbolic
    arguments"""

    def __init__(self):
        self.ok = False
        self.why = None
        self.value = None       # Val
        self.pc = None
        self.events = []
        self.notes = []
        self.term_ = None

    @property
    def term(self):
        if self.term_ is None:
            self.term_ = T.under(reify(self.value), self.pc)
        return self.term_

    def evs(self, *kinds):
        return [e for e in self.events if e.kind in kinds]

    def raised(self, *names):
        """condition under which one of the named exceptions is raised"""
        c = T.FALSE
        for e in self.events:
            if e.kind == 'raise' and (not names or
                                      (e.data.get('exc') or '').split('.')[-1]
                                      in names):
                c = T.or_(c, e.pc)
        return c


LAST = None     # the run under way


class Ctx:
    """one run of one check"""

    def __init__(self, prop, tier='quick', specs=()):
        global LAST
        LAST = self
        self.prop = prop
        self.tier = tier
        self.t0 = time.time()
        sys.setrecursionlimit(20000)
        self.mods = load(extra=[('spec.' + n, os.path.join(
            VERIF, 'dsa', 'spec', n + '.py')) for n in specs])
        self.obs = []           # (status, rule, where, text)
        self.cache = {}
        self.functions = set()
        self.counts = {}
        self.samples = []
        self.limit = 240 if tier == 'quick' else 600
        self.deadline = self.t0 + (720 if tier == 'quick' else 3000)

    # ---------------------------------------------------------- analysis
    def func(self, mod, name):
        for n in ast.walk(self.mods[mod].tree) if mod in self.mods else ():
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)) \
                    and n.name == name:
                return n
        return None

    def where(self, mod, name):
        m = self.mods[mod]
        f = self.func(mod, name)
        return '%s:%s (%s)' % (m.path, f.lineno if f else '?', name)

    def left(self):
        """seconds this run may still use (less once something is found)"""
        t = self.deadline - time.time()
        if any(o[0] == 'violation' for o in self.obs):
            t -= (self.deadline - self.t0) / 2
        return t

    def analyse(self, mod, name, args, opaque=(), key=None, cls=Interp):
        s = Summary()
        left = self.left()
        if left < 1:
            s.why = 'time limit of the run'
            return s
        if mod not in self.mods:
            raise Broken('module %s is gone' % mod)
        m = self.mods[mod]
        I = cls(self.mods, opaque)
        if not isinstance(I.module_value(name, m), (Func, Part)):
            raise Broken('public function %s.%s is gone' % (mod, name))
        old = signal.signal(signal.SIGALRM, _alarm)
        signal.alarm(int(min(self.limit, max(1, left))))
        try:
            st, v = I.run(m, name, args)
            s.value, s.pc = v, st.pc
            s.ok = True
            s.term              # force
        except TimeOut:
            s.ok, s.why = False, 'time limit'
        except (Unknown, Limit, RecursionError) as e:
            s.ok, s.why = False, '%s %s' % (type(e).__name__, str(e)[:80])
        except Exception as e:
            if os.environ.get('DSA_DEBUG'):
                traceback.print_exc(limit=-6)
            s.ok, s.why = False, 'internal %s %s' % (type(e).__name__,
                                                     str(e)[:80])
        finally:
            signal.alarm(0)
            signal.signal(signal.SIGALRM, old)
        s.events, s.notes = I.events, I.notes
        s.args = args
        s.interp = I
        if not mod.startswith('spec.'):
            self.functions |= {q for q in I.visited
                               if not q.startswith('spec.')}
        return s

    # -------------------------------------------------------- obligations
    def ok(self, rule, where, text=''):
        self.obs.append(('ok', rule, where, text))

    def bad(self, rule, where, text):
        self.obs.append(('violation', rule, where, text))

    def und(self, rule, where, text):
        self.obs.append(('undecided', rule, where, text))

    def count(self, what, n=1):
        self.counts[what] = self.counts.get(what, 0) + n

    def expect(self, cond, rule, where, text):
        (self.ok if cond else self.bad)(rule, where, text)

    def equal(self, rule, where, a, b, what, pc=None, opts=None):
        """a (the code) must equal b (the reference)"""
        if not isinstance(a, (Scalar, tuple)) and a is not None:
            try:
                a = reify(a)
            except (Unknown, Limit) as e:
                return self.und(rule, where, '%s: %s' % (what, e))
        if not isinstance(b, (Scalar, tuple)) and b is not None:
            b = reify(b)
        if _eq(a, b):
            self.ok(rule, where, what)
            if len(self.samples) < 4:
                self.samples.append('%s: %s = %s' % (where, what,
                                                     short(a, 300)))
            return True
        u = undecided(a)
        ub = undecided(b)
        if u or ub:
            self.und(rule, where, '%s: %s' % (what, ', '.join(
                sorted(str(x) for x in (u or ub)))[:160]))
            return None
        if self.left() < 1:
            return self.und(rule, where, what + ': time limit of the run')
        try:
            r = None
            for o in (opts if isinstance(opts, (list, tuple))
                      else [opts or {}]):
                q = rinterp.compare(a, b, pc, **o)
                r = q if q is not None else r
                if r is False:
                    break
        except RecursionError:
            r = None
        if r:
            self.ok(rule, where, what + ' (by random interpretation)')
            self.count('equalities by random interpretation')
            return True
        if r is None:
            self.und(rule, where, what + ': canonical forms differ and could '
                     'not be interpreted')
            return None
        x, y = difference(a, b)
        self.bad(rule, where, '%s: found %s, required %s' %
                 (what, short(x), short(y)))
        return False

    # ------------------------------------------------------------- finish
    def finish(self, explanation, assumptions=()):
        known = load_known(self.prop)
        bad = [o for o in self.obs if o[0] == 'violation']
        good = [o for o in self.obs if o[0] == 'ok']
        und = [o for o in self.obs if o[0] == 'undecided']
        new = []
        for o in bad:
            k = '%s @ %s' % (o[1], func_of(o[2]))
            if k in known:
                print('KNOWN-FINDING: property=%s %s' % (self.prop, k))
            else:
                new.append(o)
        if not self.obs:
            raise Broken('no obligation found for %s' % self.prop)
        ev = {
            'property': self.prop, 'tier': self.tier,
            'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
            'level': 'other',
            'coverage': {
                'explanation': explanation,
                'obligations': len(self.obs), 'discharged': len(good),
                'undecided': len(und),
                'undecided_list': ['%s | %s | %s' % o[1:] for o in und][:40],
                'functions_analysed': sorted(self.functions),
                'counts': self.counts,
                'obligation_list': ['%s | %s | %s' % (o[1], o[2],
                                                      o[3][:160])
                                    for o in good][:200],
                'samples': self.samples,
            },
            'assumptions': list(assumptions),
            'wall_s': round(time.time() - self.t0, 2),
            'violations': len(new),
        }
        d = os.path.join(VERIF, 'evidence') if not os.environ.get('DSA_NOEV') \
            else os.path.join('/tmp', 'dsa_ev')
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        print('%s: %d obligations, %d discharged, %d undecided, %d violated; '
              '%d functions analysed; %.1f s' %
              (self.prop, len(self.obs), len(good), len(und), len(bad),
               len(self.functions), time.time() - self.t0))
        if os.environ.get('DSA_DEBUG') or '-v' in sys.argv:
            for o in und:
                print('  undecided: %s | %s | %s' % o[1:])
        if not new:
            return 0
        rp = os.path.join(d, self.prop + '.violation.txt')
        with open(rp, 'w') as f:
            for o in new:
                f.write('rule: %s\nwhere: %s\nwhat: %s\n\n' % o[1:])
        seen = set()
        for o in new:
            if (o[1], o[2]) in seen:
                continue
            seen.add((o[1], o[2]))
            print('  %s\n    %s: %s' % (o[2], o[1], o[3]))
        print('VIOLATION property=%s replay=%s' % (self.prop, rp))
        return 1


def func_of(where):
    i = where.find('(')
    return where[i + 1:-1] if i >= 0 else where


def load_known(prop):
    p = os.path.join(VERIF, 'known_findings.txt')
    out = set()
    if os.path.exists(p):
        for ln in open(p):
            ln = ln.strip()
            if ln.startswith('known: property=%s ' % prop):
                out.add(ln.split(' ', 2)[2])
    return out
