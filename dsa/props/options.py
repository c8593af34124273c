"""C10: an option must act wherever the reference says it acts.

The summaries the other properties compare with their references are looked
at once more, for the options only: if two sets of arguments that differ in
one option give different results by the reference but the same result by the
code, the option is ignored there."""
import importlib
import re
import time
from .. import frame, rinterp
from ..frame import reify, _eq, undecided, Ctx, Scalar, Unknown, Limit
from ..rinterp import Interp, BadPoint, TooBig, close
from ..frame import atoms_of

PARTS = [('pattern', 'C25'), ('pattern', 'C24'), ('pattern', 'C27'),
         ('select', 'C23'), ('measure', 'C28'), ('radial', 'C14'),
         ('radial', 'C16'), ('calib', 'C18'), ('calib', 'C21'),
         ('calib', 'C17')]
RULE = 'an option acts wherever it should'
LIMIT = 420


class Probe(Ctx):
    out = None          # the run that reports
    params = None       # function name -> its parameters

    def equal(self, rule, where, a, b, what, pc=None, opts=None):
        try:
            a, b = (x if isinstance(x, (Scalar, tuple)) or x is None
                    else reify(x) for x in (a, b))
        except (Unknown, Limit):
            return None
        m = re.search(r'\((\w+)\)', where)
        ps = self.params.get(m.group(1)) if m else None
        if not ps or b is None or not isinstance(b, (Scalar, tuple)):
            return True
        same = _eq(a, b)
        if not same and (undecided(a) or undecided(b)):
            return None
        if not same and agree(a, b, pc, opts):
            same = True
        names = sorted({x.args[0] for x in atoms_of(b, ('sym',))} & set(ps))
        for p in names:
            k = (m.group(1), p)
            if same:
                self.out.acts.setdefault(k, where)
            elif time.time() - self.out.t0 < LIMIT and \
                    ignored(a, b, p, pc, opts):
                self.out.bad(RULE, where, '%s: results that should differ by '
                             'option %s do not (%s)' % (m.group(1), p, what))
            else:
                self.out.acts.setdefault(k, where)
        return True

    def finish(self, *a, **k):
        return 0


class Salted(Interp):
    salt = None

    def h(self, *key):
        if key[0] == 'sym' and key[1] == self.salt:
            key += ('other',)
        return Interp.h(self, *key)


def agree(a, b, pc, opts, want=14, budget=2.0):
    """no difference on a few interpretations: nothing is ignored often"""
    o = opts[0] if isinstance(opts, (list, tuple)) and opts else opts or {}
    fixed, dims, ranges = (o.get(k) for k in ('fixed', 'dims', 'ranges'))
    common = rinterp.shared_calls(a, b)
    n = 0
    t0 = time.time()
    for seed in range(200):
        if n >= want or time.time() - t0 > budget:
            break
        I = Interp(seed, fixed, dims, ranges)
        I.common = common
        I.maxsteps = 300000
        try:
            if pc is not None and not I.truth(I.ev(pc, {})):
                continue
            if not close(I.ev(a, {}), I.ev(b, {})):
                return False
        except (BadPoint, ZeroDivisionError, OverflowError, TooBig,
                RecursionError, TypeError, ValueError, IndexError, KeyError):
            continue
        n += 1
    return True


def ignored(a, b, name, pc, opts, budget=4.0):
    o = opts[0] if isinstance(opts, (list, tuple)) and opts else opts or {}
    fixed, dims, ranges = (o.get(k) for k in ('fixed', 'dims', 'ranges'))
    if fixed and name in fixed:
        return False
    common = rinterp.shared_calls(a, b)
    acts = lost = 0
    t0 = time.time()
    for seed in range(400):
        if time.time() - t0 > budget:
            break
        try:
            v = []
            for salt in (None, name):
                I = Salted(seed, fixed, dims, ranges)
                I.salt = salt
                I.common = common
                I.maxsteps = 300000
                if pc is not None and not I.truth(I.ev(pc, {})):
                    raise BadPoint()
                v.append((I.ev(a, {}), I.ev(b, {})))
        except (BadPoint, ZeroDivisionError, OverflowError, TooBig,
                RecursionError, TypeError, ValueError, IndexError, KeyError):
            continue
        (x1, y1), (x2, y2) = v
        if close(y1, y2):
            continue
        acts += 1
        if close(x1, x2):
            lost += 1
        if acts >= 60:
            break
    return lost >= 3 and 10 * lost >= acts


def options(ctx, public):
    """public: function name -> parameter names"""
    ctx.acts = {}
    Probe.out, Probe.params = ctx, public
    for mod, pid in PARTS:
        if time.time() - ctx.t0 > LIMIT:
            ctx.und(RULE, pid, 'time limit')
            break
        m = importlib.import_module('dsa.props.' + mod)
        keep = m.Ctx
        m.Ctx = Probe
        try:
            getattr(m, pid)('quick')
        except Exception as e:          # counted, not fatal
            ctx.und(RULE, pid, 'analysis stopped: %s: %s' % (
                type(e).__name__, e))
        finally:
            m.Ctx = keep
            frame.LAST = ctx
    for (f, p), where in sorted(ctx.acts.items()):
        if not any(o[0] == 'violation' and o[1] == RULE and
                   'option %s ' % p in o[3] and o[3].startswith(f + ':')
                   for o in ctx.obs):
            ctx.ok(RULE, where, '%s acts in %s as in its reference' % (p, f))
