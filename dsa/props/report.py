"""C29 reports on incomplete patterns"""
from ..frame import *
from .calib import hv, ASSUME
from .radial import center

RS = 'spec.report'


def reports(s, kinds):
    """condition under which one of the events is met; None: not known"""
    c = T.FALSE
    for e in s.evs(*kinds):
        if e.loops:
            return None
        if e.kind == 'warn' and \
                not e.data['category'].endswith('UserWarning'):
            continue
        c = T.or_(c, e.pc)
    return c


def C29(tier):
    c = Ctx('C29', tier, ['report', 'measure'])
    for f in ('calc_coef_backward', 'calc_coef_forward',
              'calc_coef_backward_from_forward'):
        args = dict(num_fact=a_int('num_fact', 1),
                    optimizing=a_bool('optimizing'),
                    threshold=a_num('threshold'), **hv(), **center())
        a = c.analyse(PROC, f, args)
        b = c.analyse(RS, 'missing_lines', args)
        w = c.where(PROC, f)
        if not a.ok or not b.ok:
            c.und('missing-lines', w, '%s: %s' % (f, a.why or b.why))
            continue
        got = reports(a, ('warn',))
        if got is None:
            c.und('missing-lines', w, f + ': warning inside a loop')
            continue
        c.equal('missing-lines', w, got, b.term, f + ': warns exactly when '
                'a spacing departs from its trend', T.and_(a.pc, b.pc),
                [dict(want=400, tries=600, share=('rmax',), ranges=dict(
                    threshold=(Fraction(0), Fraction(k, 4)))) for k in (1, 4)] +
                [dict(dims=(6, 9), want=40, ranges=dict(threshold=(
                    Fraction(0), Fraction(k)))) for k in (1, 8)] + [{}])
    args = dict(mat=a_arr('mat', 2))
    a = c.analyse(PREP, 'check_num_dots', args)
    b = c.analyse('spec.measure', 'check_num_dots', args)
    w = c.where(PREP, 'check_num_dots')
    if not a.ok or not b.ok:
        c.und('few-dots', w, a.why or b.why)
    else:
        c.equal('few-dots', w, a.term, b.term, 'check_num_dots: answer')
        got = reports(a, ('print', 'warn'))
        if got is None:
            c.und('few-dots', w, 'check_num_dots: printed inside a loop')
        else:
            c.equal('few-dots', w, got, b.term,
                    'check_num_dots: message printed')
    return c.finish(
        'The path condition of every warning, in the summary of the whole '
        'function over symbolic lines, must have the canonical form of the '
        'reference criterion.', ASSUME)
