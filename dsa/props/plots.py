"""C30 saved plots"""
from ..frame import *
from ..models import cint
from .pattern import ASSUME

PS = 'spec.plots'
LOSA = 'discorpy.losa.loadersaver'
DRAW = ('plot', 'scatter')
# calls with no influence on where points appear
FREE = ('figure', 'set_axis_off', 'close', 'rc', 'copy', 'update', 'findfont',
        'xlabel', 'ylabel', 'set_xlabel', 'set_ylabel', 'title', 'set_title',
        'gcf', 'gca', 'sca', 'draw', 'set_frameon', 'canvas', 'rc_context',
        'legend', 'set_facecolor', 'fill_between', 'cla', 'clf', 'clear',
        'get', 'items', 'keys', 'axes', 'Axes', 'add_axes', 'savefig',
        'set_size_inches', 'axis', 'xlim', 'ylim', 'set_xlim', 'set_ylim',
        'invert_yaxis', 'subplots', 'add_subplot', 'subplot', 'grid',
        'tight_layout', 'subplots_adjust', 'set_dpi', 'delaxes')


class Unclear(Exception):
    pass


def vec(v, n):
    """items of a sequence of n numbers"""
    if isinstance(v, Tup):
        it = v.items
    elif isinstance(v, Lst):
        v = asarr(v)
        it = [v.get([num_(k)]) for k in range(n)]
    elif isinstance(v, Arr) and v.ndim == 1:
        it = [v.get([num_(k)]) for k in range(n)]
    else:
        return None
    return [T.to_num(x) for x in it] if len(it) == n else None


def pair(e, a='left', b='right'):
    args, kw = e.data['args'], e.data['kwargs']
    if len(args) == 1:
        return vec(args[0], 2)
    if len(args) == 2:
        return [T.to_num(x) for x in args]
    if not args and a in kw and b in kw:
        return [T.to_num(kw[a]), T.to_num(kw[b])]
    return None


class Picture:
    """state of the figure when it is saved"""

    def __init__(self, s, local):
        self.size = self.dpi = self.rect = self.x = self.y = None
        self.tight = False
        self.drawn = []
        self.labels = {}
        own = None
        saved = 0
        for e in s.evs('draw'):
            n, args, kw = e.data['name'], e.data['args'], e.data['kwargs']
            if args is None:
                raise Unclear(n + ' with unpacked arguments')
            if n in DRAW:
                if len(args) not in (2, 3) and not (
                        'x' in kw and 'y' in kw):
                    raise Unclear('arguments of ' + n)
                self.drawn.append(e)
                continue
            if n not in FREE:
                raise Unclear(n)
            if n == 'savefig':
                saved += 1
                if 'dpi' in kw:
                    own = kw['dpi']
                self.tight = 'bbox_inches' in kw and \
                    kw['bbox_inches'] != NONE
                continue
            if e.loops or e.pc != T.TRUE and n not in (
                    'close', 'update', 'rc', 'findfont'):
                raise Unclear(n + ' under a condition')
            if n in ('figure', 'subplots'):
                if 'figsize' in kw:
                    self.size = vec(kw['figsize'], 2)
                if 'dpi' in kw:
                    self.dpi = kw['dpi']
                if 'gridspec_kw' in kw or 'layout' in kw or \
                        'constrained_layout' in kw:
                    raise Unclear(n)
            elif n == 'set_size_inches':
                self.size = pair(e, 'w', 'h')
            elif n == 'set_dpi':
                self.dpi = args[0]
            elif n in ('Axes', 'axes', 'add_axes'):
                for x in args:
                    r = vec(x, 4)
                    if r:
                        self.rect = r
            elif n == 'axis':
                r = vec(args[0], 4) if args else None
                if r:
                    self.x, self.y = r[:2], r[2:]
                elif {'xmin', 'xmax', 'ymin', 'ymax'} <= set(kw):
                    self.x = [kw['xmin'], kw['xmax']]
                    self.y = [kw['ymin'], kw['ymax']]
                elif not (args and isinstance(args[0], Const) and
                          args[0].v == 'off'):
                    raise Unclear('axis')
            elif n in ('xlim', 'set_xlim'):
                self.x = pair(e)
            elif n in ('ylim', 'set_ylim'):
                self.y = pair(e, 'bottom', 'top')
            elif n == 'invert_yaxis':
                self.y = self.y and self.y[::-1]
            elif n in ('xlabel', 'ylabel', 'set_xlabel', 'set_ylabel'):
                if args and isinstance(args[0], Const):
                    self.labels[n[-6]] = str(args[0].v).lower()
            elif n in ('tight_layout', 'subplots_adjust', 'add_subplot',
                       'subplot') and local:
                raise Unclear(n)
        if saved != 1:
            raise Unclear('%d calls of savefig' % saved)
        if own is not None and own != NONE and not (
                isinstance(own, Const) and own.v == 'figure'):
            self.dpi = own
        if self.dpi is None:
            self.dpi = num_(100)
        if self.size is None:
            raise Unclear('size not set')

    def pixels(self):
        return [T.mul(T.to_num(x), T.to_num(self.dpi)) for x in self.size]

    def points(self, e, local):
        """columns and rows, in pixels of the saved image (or data), of what
        one call draws"""
        args, kw = e.data['args'], e.data['kwargs']
        xy = list(args[:2]) if len(args) >= 2 else [kw['x'], kw['y']]
        xy = [asarr(v) if isinstance(v, (Tup, Lst)) else v for v in xy]
        nd = [v.ndim if isinstance(v, Arr) else 0 for v in xy]
        if len(set(nd)) != 1 or nd[0] > 1:
            raise Unclear('coordinates')
        loops = [(a, n) for a, n in e.loops]
        if nd[0]:
            p = fresh('w')
            if xy[0].dims[0] != xy[1].dims[0]:
                raise Unclear('lengths')
            if cint(xy[0].dims[0]) == 1:
                p = num_(0)
            else:
                loops.append((p, xy[0].dims[0]))
            xy = [v.get([p]) for v in xy]
        xy = [T.to_num(v) for v in xy]
        if local:
            if not (self.rect and self.x and self.y):
                raise Unclear('axes')
            w, h = self.pixels()
            fx = T.div(T.sub(xy[0], self.x[0]), T.sub(self.x[1], self.x[0]))
            fy = T.div(T.sub(xy[1], self.y[0]), T.sub(self.y[1], self.y[0]))
            xy = [T.mul(w, T.add(self.rect[0], T.mul(self.rect[2], fx))),
                  T.sub(h, T.mul(h, T.add(self.rect[1],
                                          T.mul(self.rect[3], fy))))]
        out = []
        for v in xy:
            v = T.ite(e.pc, v, num_(-99991))
            for a, n in reversed(loops):
                v = lam([a], [n], v)
            out.append(v)
        return out


def C30(tier):
    c = Ctx('C30', tier, ['plots'])
    H = dict(file_path=a_str('path'), height=a_int('height', 1),
             width=a_int('width', 1), dpi=a_int('dpi', 1),
             overwrite=TRUE)
    for f, local, x in (
            ('save_plot_image', True, dict(list_lines=a_lines('lines'))),
            ('save_plot_points', True, dict(
                list_points=a_arr('pts', 2, [dim('pts', 0), num_(2)]),
                marker=a_str('marker'), color=a_str('color'))),
            ('save_residual_plot', False, dict(list_data=a_arr(
                'data', 2, [dim('data', 0), num_(2)])))):
        a = c.analyse(LOSA, f, dict(H, **x))
        b = c.analyse(PS, f, dict(H, **x))
        w = c.where(LOSA, f)
        if not a.ok or not b.ok:
            c.und('picture', w, '%s: %s' % (f, a.why or b.why))
            continue
        try:
            one(c, f, w, a, b, local)
        except (Unclear, Unknown, Limit) as e:
            c.und('picture', w, '%s: %s' % (f, e))
    return c.finish(
        'Every drawing call in the summary of the function is turned into '
        'the pixel it marks in the saved image (figure size, resolution, axes '
        'rectangle and limits); over symbolic lines and points these must be '
        'the given positions.', ASSUME)


def one(c, f, w, a, b, local):
    P, Q = Picture(a, local), Picture(b, local)
    for k, nm in enumerate(('width', 'height')):
        c.equal('picture-size', w, P.pixels()[k], Q.pixels()[k],
                '%s: %s of the image in pixels' % (f, nm))
    if local:
        (c.bad if P.tight else c.ok)('picture-size', w, f + ': image cropped '
                                     'to its contents' if P.tight else
                                     f + ': image not cropped')
    if not P.drawn:
        return c.bad('picture', w, f + ': nothing is drawn')
    want = Q.points(Q.drawn[0], local)
    if len(P.drawn) > 1:
        # several strokes: each must show the points
        bad = 0
        for e in P.drawn:
            for got, x in zip(P.points(e, local), want):
                if got != x and rinterp.compare(got, x) is not True:
                    bad += 1
        if bad:
            raise Unclear('several drawing calls')
        c.ok('picture', w, f + ': positions drawn')
    else:
        for nm, got, x in zip(('columns', 'rows'),
                              P.points(P.drawn[0], local), want):
            c.equal('picture', w, got, x, '%s: %s drawn' % (f, nm))
    for e in P.drawn:
        if f == 'save_plot_points':
            t = ' '.join(str(reify(v)) for v in list(e.data['args'][2:]) +
                         list(e.data['kwargs'].values()))
            for nm in ('marker', 'color'):
                (c.ok if 'strsym(%s)' % nm in t else c.bad)(
                    'picture', w, '%s: %s used in drawing' % (f, nm)
                    if 'strsym(%s)' % nm in t else
                    '%s: %s not used in drawing' % (f, nm))
    if not local and P.labels.keys() >= {'x', 'y'}:
        bad = 'residual' in P.labels['x'] or 'radius' in P.labels['y']
        (c.bad if bad else c.ok)('labels', w, '%s: x %r, y %r' % (
            f, P.labels['x'], P.labels['y']))
