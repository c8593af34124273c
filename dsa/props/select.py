"""C12 open-ended loops, C23 selection and grouping"""
import ast
from fractions import Fraction
from ..frame import *
from .. import rinterp
from ..models import mk
from ..probe import Probe
from ..flow import entry as FE
from ..flow import lib as FL
from ..flow.vals import V
from .pattern import same, SEL, ASSUME

POSITIVE = ('line_dist', 'dot_dist')


def group_args(lab):
    mat = a_points('points') if lab == 'points' else a_arr('mat', 2)
    return dict(mat=mat, slope=a_num('slope'), dot_dist=a_num('dot_dist'),
                ratio=a_num('ratio'), num_dot_miss=a_num('num_dot_miss'),
                accepted_ratio=a_num('accepted_ratio'))


def polyfit_args():
    return dict(points=a_points('points'), slope=a_num('slope'),
                line_dist=a_num('line_dist'), ratio=a_num('ratio'),
                num_dot_miss=a_num('num_dot_miss'),
                accepted_ratio=a_num('accepted_ratio'),
                overlap_ratio=a_num('overlap_ratio'),
                order=a_int('order', 1))


ENTRIES = [('group_dots_hor_lines', lambda: group_args('points')),
           ('group_dots_ver_lines', lambda: group_args('points')),
           ('group_dots_hor_lines_based_polyfit', polyfit_args),
           ('group_dots_ver_lines_based_polyfit', polyfit_args)]


def rounds(c, f, args):
    s = c.analyse(PREP, f, args, cls=Probe)
    I = getattr(s, 'interp', None)
    return s, (I.rounds if I is not None else [])


# ---------------------------------------------------------------- sampling
def samples(tries, fixed=()):
    for seed in range(tries):
        I = rinterp.Interp(seed, dict(fixed))
        for n in POSITIVE:
            I.fixed[n] = Fraction(I.h('pos', n) % 4001 + 500, 1009)
        yield I


def hold(I, t):
    return I.truth(I.ev(t, {}))


ERRS = (rinterp.BadPoint, rinterp.TooBig, ZeroDivisionError, OverflowError,
        TypeError, ValueError, IndexError, KeyError)


def find(cond, tries=200, fixed=(), want=2):
    """number of interpretations evaluated and of those satisfying cond"""
    n = k = 0
    for I in samples(tries, fixed):
        try:
            v = hold(I, cond)
        except ERRS:
            continue
        n += 1
        k += bool(v)
        if k >= want:
            break
    return n, k


# --------------------------------------------------------------------- C12
def length(v):
    return Probe.length(None, None, v)


def length_of(v):
    if isinstance(v, Choice):
        return T.ite(v.cond, length_of(v.a), length_of(v.b))
    return Probe.length(PROBE, None, v)


class _P(Probe):
    def __init__(self):
        pass


PROBE = _P()


def shrinks(r, nm):
    """'proved', 'no' or None: the carried array loses an element"""
    k, h, init = r.heads[nm]
    n = h.dims[0]
    try:
        m = length_of(r.ends[nm])
    except (Unknown, Limit, KeyError):
        return None
    if m.unk:
        return None
    pc = T.and_(r.enter, r.cont)
    d = T.sub(n, m)
    c = T.is_cst(d)
    if c is not T.NOTC:
        return 'proved' if c >= 1 else 'no'
    v = r.ends[nm]
    l = v.gen if isinstance(v, Arr) else v
    if isinstance(l, Lst):
        segs = norm_segs(l.segs)
        if len(segs) == 1 and isinstance(segs[0], Map) and \
                segs[0].n == n and len(segs[0].segs) == 1 and \
                isinstance(segs[0].segs[0], Grd) and \
                len(segs[0].segs[0].segs) == 1 and \
                isinstance(segs[0].segs[0].segs[0], One):
            g = segs[0].segs[0].cond
            for at in (num_(0), T.sub(n, num_(1))):
                if T.under(T.subst(g, {sym_name(segs[0].i): at}),
                           pc) == FALSE:
                    return 'proved'
    bad = T.and_(pc, T.cmp_le(n, m))
    k, x = find(bad)
    if x >= 2:
        return 'no'
    return 'held' if k >= 20 else None


def window(r):
    """closed form of the carried numbers after N rounds, or None"""
    nums = [nm for nm, (k, h, i) in r.heads.items()
            if k == 'num' and nm not in r.inv and nm in r.ends]
    if not nums:
        return None
    ends = {}
    for nm in nums:
        e = r.ends[nm]
        if not isinstance(e, Scalar):
            return None
        ends[nm] = T.under(e, r.cont) if isinstance(e, Ite) else e
    hs = {nm: sym_name(r.heads[nm][1]) for nm in nums}
    # values the exit never looks at need no closed form
    used, todo = set(), [nm for nm in nums if hs[nm] in r.cont.syms]
    while todo:
        nm = todo.pop()
        if nm not in used:
            used.add(nm)
            todo += [q for q in nums if hs[q] in ends[nm].syms]
    nums = sorted(used)
    if not nums:
        return {}

    def step(s):
        m = {hs[nm]: s[nm] for nm in nums}
        return {nm: T.subst(ends[nm], m) for nm in nums}
    s0 = {}
    for nm in nums:
        v = r.heads[nm][2]
        if not isinstance(v, Scalar):
            return None
        s0[nm] = v
    s1 = step(s0)
    s2 = step(s1)
    N = of_atom(T.sym('N.rounds', integer=True, lb=0))
    d = {nm: T.sub(s2[nm], s1[nm]) for nm in nums}
    sN = {nm: T.add(s1[nm], T.mul(N, d[nm])) for nm in nums}
    nx = step(sN)
    for nm in nums:
        if nx[nm] != T.add(sN[nm], d[nm]):
            return None
    return {hs[nm]: sN[nm] for nm in nums}


def progress(c, r):
    rule = 'loop-ends'
    w = r.where
    arrs = [nm for nm, (k, h, i) in r.heads.items()
            if k == 'arr' and nm in r.ends]
    if r.cont == FALSE:
        return c.ok(rule, w, 'no second round')
    res = {}
    for nm in arrs:
        res[nm] = shrinks(r, nm)
        if res[nm] in ('proved', 'held') and sym_name(
                r.heads[nm][1].dims[0]) in r.enter.syms:
            return c.ok(rule, w, 'every round removes an element of %s (%s)' %
                        (nm, 'first or last element never kept'
                         if res[nm] == 'proved' else
                         'random interpretation'))
    try:
        st = window(r)
    except Limit:
        st = None
    if st is not None:
        ct = T.subst(r.cont, st)
        n, k = find(ct, fixed={'N.rounds': 10 ** 7})
        if n >= 20 and k == 0:
            return c.ok(rule, w, 'the carried limits move on by a constant '
                        'amount every round and the loop ends once they '
                        'have passed all data')
        if k >= 2:
            return c.bad(rule, w, 'another round follows after any number of '
                         'rounds: the search window does not pass the data '
                         'or finding nothing does not end the search')
    # a state that repeats itself
    stuck = r.cont
    try:
        for nm, (k, h, i) in r.heads.items():
            e = r.ends.get(nm)
            if k == 'num' and nm not in r.inv:
                if not isinstance(e, Scalar) or e.unk:
                    raise Unknown(nm)
                stuck = T.and_(stuck, T.eq0(T.sub(e, h)))
            elif k == 'arr':
                stuck = T.and_(stuck, T.cmp_le(h.dims[0], length_of(e)))
        n, k = find(stuck)
        if k >= 2 and not stuck.unk:
            return c.bad(rule, w, 'a round can end with the state it started '
                         'from and another round following: nothing is '
                         'removed and nothing moves on')
    except (Unknown, Limit) as e:
        pass
    c.und(rule, w, 'no measure found for this loop')


def whiles(mods, names):
    for m in names:
        if m not in mods:
            continue
        for f in ast.walk(mods[m].tree):
            if isinstance(f, ast.FunctionDef):
                for n in ast.walk(f):
                    if isinstance(n, ast.While):
                        yield mods[m], f, n


def C12(tier):
    from .losa import Losa
    L = Losa('C12', tier)
    c = L.c
    seen = set()
    for f, mk_args in ENTRIES:
        s, rs = rounds(c, f, mk_args())
        for r in rs:
            k = (r.mod.name, r.node.lineno, r.node.col_offset)
            if k in seen:
                continue
            seen.add(k)
            c.count('loops')
            if r.counted:
                c.ok('loop-ends', r.where, 'counts up to a limit')
            else:
                progress(c, r)
        if not rs and not any(True for _ in ()):
            c.ok('loop-ends', c.where(PREP, f), 'no open-ended loop reached')
    names(L)
    frames(L)
    for m, f, n in whiles(c.mods, sorted(c.mods)):
        k = (m.name, n.lineno, n.col_offset)
        if m.name in (LOSA, UTIL) or k in seen or \
                m.name.startswith('spec.'):
            continue
        c.und('loop-ends', '%s:%s (%s)' % (m.path, n.lineno, f.name),
              'loop not reached by the analysis')
    return c.finish(
        'Every loop without a fixed number of rounds is summarised for one '
        'round from an arbitrary state (uninterpreted values of the same '
        'shape); a measure must fall: an element leaves a finite collection, '
        'or the carried limits have a closed form after N rounds under which '
        'the continuation condition is false for large N. File-name search '
        'and video: all paths of the loop with every name taken / any number '
        'of frames; each round must try a new name / consume a frame and '
        'stop at the end of the stream.', ASSUME)


def names(L):
    from .losa import SAVERS
    n = 10500 if L.c.tier == 'quick' else 60000
    for fn in SAVERS:
        taken(L, fn, n, True)
        taken(L, fn, 300, False)


def taken(L, fn, n, files):
    """the search for a free name with every name in use by a file (or by a
    folder)"""
    from .losa import SAVERS, request, fresh_args, FOLDER, key, call
    rule = 'names-advance'
    mk_, sxs, repl = SAVERS[fn]

    def pol(r, k):
        if k[0] in ('exists', 'isfile', 'isdir'):
            if k[1] == key(FOLDER):
                return k[0] != 'isfile'
            if k[1][0] == 'P':
                r.asked = getattr(r, 'asked', 0) + 1
                return True if k[0] == 'exists' else \
                    (k[0] == 'isfile') == files
        return None

    def drv(r):
        kw = dict(mk_(), overwrite=False, file_path=request('', sxs[0]))
        return call(r, LOSA, fn, **fresh_args(kw))
    what = 'all names taken' if files else 'all names taken by folders'
    outs = L.paths(rule, fn, drv, what=what, unroll=n, steps=400 * n +
                   5000, failures=False, policy=pol, loop=(1,))

    def test(o):
        if o.kind != 'cut':
            return None
        got = getattr(o.run, 'asked', 0)
        if got >= n:
            return None
        e = [x for x in o.events if x.kind == 'round']
        return (e[-1].where if e else None), \
            'only %d different names in %d rounds: the search for a ' \
            'free name goes round in circles' % (got, n)
    L.judge(rule, fn, outs, test, what)


def frames(L):
    from .losa import video
    rule = 'video-ends'
    for nd in (2, 3):
        for pad in (False, True):
            outs = video(L, nd, pad, rule)

            def test(o):
                ended, since = False, 1
                for e in o.events:
                    if e.kind == 'round':
                        if ended:
                            return e.where, 'goes on after the stream ended'
                        if not since:
                            return e.where, 'a round that reads no frame'
                        since = 0
                    elif e.kind == 'frame':
                        since += 1
                        if ended:
                            return e.where, 'reads on after the end'
                        if not e.ok and since:
                            ended = ended or bool(
                                [x for x in o.events if x.kind == 'round'
                                 and o.events.index(x) <
                                 o.events.index(e)])
                if o.kind == 'cut' and ended:
                    return None, 'goes on after the stream ended'
                return None
            L.judge(rule, 'unwarp_video_cv2', outs, test,
                    '%dD frames, pad=%s' % (nd, pad), mod=UTIL)


# --------------------------------------------------------------------- C23
def C23(tier):
    c = Ctx('C23', tier, ['select'])
    criteria(c)
    provenance(c)
    grouping(c)
    return c.finish(
        'Criteria: summaries of the selection functions must have the '
        'canonical form of the reference criterion. Provenance: flow '
        'analysis of where each returned row comes from and what was done '
        'to it (rotations and flips must cancel). Grouping: one round of the '
        'grouping loop from an arbitrary set of dots must split it into the '
        'new line and the dots left, no dot in both or in neither; final '
        'length filter and order compared with the reference.', ASSUME)


def margins():
    return [('int', a_int('hm'), a_int('vm')),
            ('pairs', Tup([a_int('hm'), a_int('hm2')]),
             Tup([a_int('vm'), a_int('vm2')], True))]


SPREAD = dict(tries=900, want=150, budget=12, ranges={
    'residual': (Fraction(0), Fraction(3, 2))})


def criteria(c):
    r = 'criterion'
    same(c, r, SEL, PREP, 'select_dots_based_size',
         dict(mat=a_arr('mat', 2), dot_size=a_num('dot_size'),
              ratio=a_num('ratio')))
    same(c, r, SEL, PREP, 'select_dots_based_ratio',
         dict(mat=a_arr('mat', 2), ratio=a_num('ratio')))
    same(c, r, SEL, PREP, 'select_dots_based_distance',
         dict(mat=a_arr('mat', 2), dot_dist=a_num('dot_dist'),
              ratio=a_num('ratio')))
    for ax in ('hor', 'ver'):
        same(c, r, SEL, PREP, 'remove_residual_dots_' + ax,
             dict(list_lines=a_lines('lines'), slope=a_num('slope'),
                  residual=a_num('residual')), errors=True, opts=SPREAD)
    for lab, hm, vm in margins():
        d = dict(height=a_int('height', 1), width=a_int('width', 1),
                 hor_curviness=a_num('hc'), ver_curviness=a_num('vc'),
                 hor_margin=hm, ver_margin=vm, rotate=a_num('rotate'))
        same(c, r, SEL, PREP, 'make_parabola_mask', d, lab=lab)
        same(c, r, SEL, PREP, 'remove_points_using_parabola_mask',
             dict(d, points=a_points('points')), lab=lab)
    same(c, r, SEL, PREP, 'get_points_dot_pattern',
         dict(mat=a_arr('mat', 2), binarize=a_bool('binarize'),
              ratio=a_num('ratio'), thres=a_num('thres')),
         (PREP + '.binarization',), errors=True)
    same(c, r, SEL, PREP, 'rotate_points',
         dict(points=a_points('points'), angle=a_num('angle'),
              degree_unit=a_bool('degree_unit')))
    same(c, r, SEL, PREP, 'remove_subset_points',
         dict(selected_points=a_points('selected'),
              points=a_points('points')))
    dots = dict(dot1=a_arr('dot1', 1, [num_(2)]),
                dot2=a_arr('dot2', 1, [num_(2)]), slope=a_num('slope'),
                dot_dist=a_num('dot_dist'), ratio=a_num('ratio'),
                num_dot_miss=a_num('num_dot_miss'))
    near = dict(current_points=a_points('current'), points=a_points('points'),
                residual=a_num('residual'), order=num_(2))
    for f, d in (('_check_dot_on_line', dots),
                 ('_get_nearby_hor_points', near),
                 ('_get_nearby_ver_points', near)):
        node = [n for n in c.mods[PREP].tree.body
                if isinstance(n, ast.FunctionDef) and n.name == f]
        if not node or set(FE.params(node[0])) != set(d):
            c.und(r, PREP, '%s is not there in the known form' % f)
            continue
        same(c, r, SEL, PREP, f, d)


ROWS = [('group_dots_hor_lines', 'mat', 'points'),
        ('group_dots_ver_lines', 'mat', 'points'),
        ('group_dots_hor_lines', 'mat', 'image'),
        ('group_dots_ver_lines', 'mat', 'image'),
        ('group_dots_hor_lines_based_polyfit', 'points', ''),
        ('group_dots_ver_lines_based_polyfit', 'points', ''),
        ('remove_residual_dots_hor', 'list_lines', ''),
        ('remove_residual_dots_ver', 'list_lines', ''),
        ('remove_points_using_parabola_mask', 'points', ''),
        ('remove_subset_points', 'points', '')]
ORDER = {'group_dots_hor_lines': 0, 'group_dots_ver_lines': 1,
         'group_dots_hor_lines_based_polyfit': 0,
         'group_dots_ver_lines_based_polyfit': 1}
STAT = ('mean', 'median', 'min', 'max', 'amin', 'amax', 'average', 'sum')


def provenance(c):
    rule, rule2 = 'only-input-points', 'line-order'
    mod = c.mods[PREP]
    fns = {n.name: n for n in mod.tree.body
           if isinstance(n, ast.FunctionDef)}
    for f, par, lab in ROWS:
        w = c.where(PREP, f)
        what = f + (' [%s]' % lab if lab else '')
        over, src = None, par
        if lab:
            src = 'dots' if lab == 'image' else par

            def mat(fl, src=src, lab=lab):
                return V('arr', 2, frozenset(['P:mat']),
                         deps=frozenset(['mat']), dt='inh',
                         prov=('rows', src, ()) if lab == 'points'
                         else ('image', 999983))
            over = {'mat': mat}
        try:
            fl = FE.analyse(c.mods, mod, fns[f], over)
        except RecursionError:
            c.und(rule, w, what)
            continue
        c.functions |= set(fl.visited)
        r = fl.result
        els = [r]
        if r.may('list', 'tuple') and not r.may('arr'):
            els = [fl.heap[o].elem for o in r.objs if o in fl.heap]
            els = [e for e in els if e is not None]
        if not els:
            c.und(rule, w, what + ': no element seen')
        for e in els:
            p = e.prov
            if p is None and e.may('list'):
                p = FL.listprov(fl, e)
            if p == ('rows', src, ()):
                c.ok(rule, w, what + ': rows of the input')
            elif p is not None and p[0] == 'alt':
                c.bad(rule, w, '%s: coordinates are altered (%s)' % (
                    what, ' '.join(str(x) for x in p[1:])))
            elif p is not None and p[0] == 'rows':
                if p[1] == src and all(known(x) for x in p[2]):
                    c.bad(rule, w, '%s: points come back after %s' % (
                        what, ', '.join(chain(x) for x in p[2])))
                else:
                    c.und(rule, w, '%s: rows of %s after %s' % (
                        what, p[1], p[2]))
            else:
                c.und(rule, w, what + ': origin of the rows not established')
        if f in ORDER:
            o = FL.order_of(fl, r)
            k = ORDER[f]
            wrong = [x for x in o if x is not None and
                     (x[1] != k or x[2] != 1)]
            if wrong:
                c.bad(rule2, w, '%s: lines are sorted by %s of column %d%s' %
                      (what, wrong[0][0], wrong[0][1], ' downwards'
                       if wrong[0][2] < 0 else ''))
            elif o and None not in o and all(x[0] in STAT for x in o):
                c.ok(rule2, w, '%s: sorted by %s of column %d' %
                     (what, sorted(o)[0][0], k))
            else:
                c.und(rule2, w, what + ': order not established')


def known(x):
    return x == 'flip' or isinstance(x, tuple) and x[0] == 'rot' and \
        x[1] is not None


def chain(x):
    return 'swapping coordinates' if x == 'flip' else 'a rotation'


def grouping(c):
    rule, rule2 = 'dots-split', 'kept-lines'
    for f in ('group_dots_hor_lines', 'group_dots_ver_lines'):
        w = c.where(PREP, f)
        what = f
        s, rs = rounds(c, f, group_args('points'))
        split(c, rule, w, what, rs)
        b = c.analyse(SEL, f, group_args('points'), cls=Probe)
        if not s.ok or not b.ok:
            c.und(rule2, w, '%s: %s' % (what, s.why or b.why))
            continue
        if len([r for r in rs if not r.counted]) != 1:
            c.und(rule2, w, what + ': lines are not collected in one loop')
            continue
        try:
            # lines may be collected with swapped coordinates and be swapped
            # back afterwards
            b2 = c.analyse(SEL, f + '_swapped', group_args('points'),
                           cls=Probe)
            if b2.ok and s.term == b2.term:
                c.ok(rule2, w, what + ' (collected with swapped coordinates)')
                continue
            c.equal(rule2, w, s.term, b.term, what)
        except (Limit, Unknown) as e:
            c.und(rule2, w, '%s: %s' % (what, e))


def split(c, rule, w, what, rs):
    rs = [r for r in rs if not r.counted]
    if len(rs) != 1:
        return c.und(rule, w, what + ': lines are not collected in one loop')
    r = rs[0]
    arrs = [nm for nm, (k, h, i) in r.heads.items() if k == 'arr' and
            nm in r.ends]
    if len(arrs) != 1 or len(r.grown) != 1:
        return c.und(rule, r.where, what + ': form of the loop')
    h = r.heads[arrs[0]][1]
    try:
        left = reify(r.ends[arrs[0]])
        line = [x for x in ones(r.grown[0][1].segs)]
        if len(line) != 1:
            return c.und(rule, r.where, what + ': form of the loop')
        sel = reify(line[0])
        head = reify(h)
    except (Unknown, Limit) as e:
        return c.und(rule, r.where, '%s: %s' % (what, e))
    if left.unk or sel.unk:
        return c.und(rule, r.where, what + ': rows not followed')
    n = 0
    bad = {}
    for I in samples(200):
        I.mode = 0
        try:
            if not hold(I, r.enter):
                continue
            a, b, t = (pairs(I.ev(x, {})) for x in (sel, left, head))
        except ERRS:
            continue
        if len(set(t)) != len(t):
            continue
        n += 1
        if set(a) & set(b):
            k = 'a dot of the new line stays among the dots left and can ' \
                'enter a second line'
        elif len(set(a)) != len(a):
            k = 'a dot enters the new line twice'
        elif set(a) - set(t) or set(b) - set(t):
            k = 'a point that is not among the dots'
        elif set(t) - set(a) - set(b):
            k = 'a dot is neither in the new line nor among the dots left'
        else:
            continue
        bad[k] = bad.get(k, 0) + 1
        if bad[k] >= 2:
            return c.bad(rule, r.where, '%s: %s' % (what, k))
    if n < 10:
        return c.und(rule, r.where, what + ': too few interpretations')
    c.ok(rule, r.where, '%s: new line and dots left are complementary (%d '
         'interpretations of the summary)' % (what, n))


def ones(segs):
    for s in segs:
        if isinstance(s, One):
            yield s.v
        else:
            yield from ones(s.segs)


def pairs(v):
    out = []
    for x in v:
        if not isinstance(x, (list, tuple)) or len(x) != 2:
            raise TypeError('row')
        out.append(tuple(sorted('%.9g' % float(y) for y in x)))
    return out
