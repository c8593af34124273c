"""C01-C07: loading and saving, by path-sensitive effect analysis"""
import ast
import random
import signal
import time
from ..frame import Ctx, Broken, TimeOut, _alarm
from ..entry import LOSA, UTIL
from ..path.vals import *
from ..path.run import explore, call, is_sub, D

FOLDER = T('sym', 'folder', typ='path')
STEM = T('sym', 'stem')
RULE = ('All control paths from the public functions are followed (private '
        'helpers inlined) on abstract values: unknown conditions and every '
        'file-system state open both branches, every I/O operation opens a '
        'failing branch; the effect sequence of each path is checked.')
ASSUME = ['POSIX platform; paths without control characters or backslashes',
          'the I/O libraries (pathlib, h5py, PIL, json, pickle, matplotlib) '
          'behave as modelled in dsa/path/iolib.py',
          'loops over unknown collections are followed for 0 and 2 generic '
          'elements, open searches up to the stated number of rounds']


def request(mid, sx, as_path=False):
    return P(FOLDER, S([STEM, mid + sx]), not as_path)


def num(n, t='float'):
    return T('sym', n, typ=t)


def hw():
    return dict(height=num('height', 'int'), width=num('width', 'int'),
                dpi=num('dpi', 'int'))


PLOT_SX = ['.png', '.jpg', '.tif', '.PNG', '.v1.png']
HDF_SX = ['.hdf', '.h5', '.nxs', '.hdf5', '.H5', '.v1.hdf']
SAVERS = {
    'save_image': (lambda: dict(mat=A('sym', 'mat', nd=2)),
                   ['.tif', '.tiff', '.TIF', '.png', '.jpg', '.PNG',
                    '.bmp', '.v1.tif'], False),
    'save_plot_image': (lambda: dict(
        list_lines=T('sym', 'lines', elt='ndarray'), **hw()), PLOT_SX, True),
    'save_residual_plot': (lambda: dict(
        list_data=A('sym', 'data', nd=2), **hw()), PLOT_SX, True),
    'save_plot_points': (lambda: dict(
        list_points=T('sym', 'points', elt='ndarray'), **hw()), PLOT_SX,
        True),
    'save_hdf_file': (lambda: dict(idata=A('sym', 'idata', nd=3)), HDF_SX,
                      True),
    'open_hdf_stream': (lambda: dict(
        data_shape=(num('d0', 'int'), num('d1', 'int'), num('d2', 'int'))),
        HDF_SX, True),
    'save_metadata_txt': (lambda: dict(
        xcenter=num('xc'), ycenter=num('yc'),
        list_fact=[num('k0'), num('k1')]), ['.txt', '.dat', '.TXT',
                                            '.v1.txt'], True),
    'save_metadata_json': (lambda: dict(
        xcenter=num('xc'), ycenter=num('yc'),
        list_fact=[num('k0'), num('k1')]), ['.json', '.JSON', '.v1.json'],
        True),
    'save_python_list': (lambda: dict(python_list=T('sym', 'plist')),
                         ['.pkl', '.PKL', '.v1.pkl'], True),
}
LOADERS = {
    'load_image': [{}, dict(average=False)],
    'get_hdf_information': [{}, dict(display=True)],
    'find_hdf_key': [dict(pattern=T('sym', 'pattern', typ='str')),
                     dict(pattern=T('sym', 'pattern', typ='str'),
                          display=True)],
    'load_hdf_file': [dict(key_path=T('sym', 'key', typ='str')), {},
                      dict(key_path=T('sym', 'key', typ='str'),
                           index=num('i', 'int'))],
    'load_hdf_object': [dict(key_path=T('sym', 'key', typ='str'))],
    'load_metadata_txt': [{}], 'load_metadata_json': [{}],
    'load_python_list': [{}],
}


class Losa:
    def __init__(self, prop, tier):
        self.c = Ctx(prop, tier)

    def where(self, fn, mod=LOSA):
        try:
            return self.c.where(mod, fn)
        except KeyError:
            raise Broken('module %s is gone' % mod)

    def paths(self, rule, fn, drv, limit=20000, mod=LOSA, what='', **opts):
        """outcomes, or None (recorded as undecided)"""
        c = self.c
        left = c.left()
        if left < 1:
            c.und(rule, self.where(fn, mod), what + ': time limit')
            return None
        old = signal.signal(signal.SIGALRM, _alarm)
        signal.alarm(int(min(120, left)) or 1)
        try:
            outs = explore(c.mods, drv, limit, **opts)
        except (Undecided, TimeOut, RecursionError) as e:
            c.und(rule, self.where(fn, mod), '%s: %s %s' % (
                what, type(e).__name__, str(e)[:120]))
            return None
        except Broken:
            raise
        except Exception as e:
            import os
            if os.environ.get('DSA_DEBUG'):
                import traceback
                traceback.print_exc(limit=-6)
            c.und(rule, self.where(fn, mod), '%s: internal %s %s' % (
                what, type(e).__name__, str(e)[:120]))
            return None
        finally:
            signal.alarm(0)
            signal.signal(signal.SIGALRM, old)
        c.count('paths', len(outs))
        c.count('effects', sum(len(o.events) for o in outs))
        for o in outs:
            c.functions |= o.run.visited
        return outs

    def judge(self, rule, fn, outs, test, what, mod=LOSA):
        """test(outcome) -> None or (where, text)"""
        if outs is None:
            return
        for o in outs:
            try:
                r = test(o)
            except Undecided as e:
                self.c.und(rule, self.where(fn, mod), '%s: %s' % (what, e))
                return
            if r is not None:
                self.c.bad(rule, r[0] or self.where(fn, mod), '%s: %s' % (
                    what, r[1]))
                return
        self.c.ok(rule, self.where(fn, mod), '%s (%d paths)' % (what,
                                                              len(outs)))


def saver_variants(tier):
    for fn, (mk, sxs, repl) in SAVERS.items():
        for sx in sxs + ['', '.xyz', '.v1.xyz']:
            mid = '.v1' if sx.startswith('.v1.') else ''
            yield fn, mk, mid, sx[len(mid):], sx in sxs, repl
        if fn == 'open_hdf_stream':
            def mk2(mk=mk):
                return dict(mk(), key_path='entry/data', metadata=D(
                    [('info/angles', A('sym', 'angles', nd=1))]))
            for sx in sxs[:2] + ['.xyz']:
                yield fn, mk2, '', sx, sx in sxs, repl


def final_writes(o):
    """files this path leaves behind, as {key: (path, first write)}"""
    w = {}
    for e in o.events:
        if e.kind == 'write':
            w.setdefault(e.path.key, (e.path, e))
        elif e.kind == 'delete':
            w.pop(e.path.key, None)
    return w


def name_problem(p, mid, sx, supported, exact):
    if key(p.parent) != key(FOLDER):
        return 'file %r is not in the requested folder' % p
    ps = p.name.parts
    if not ps or key(ps[0]) != key(STEM):
        return 'file %r does not keep the requested name' % p
    want = S([STEM, mid + sx])
    if exact:
        if supported and p.name != want:
            return 'writes %r instead of the requested name' % p
        if not supported and p.name != want and p.stem != S([STEM, mid]):
            return 'writes %r, only the extension may be replaced' % p
    else:
        if supported and text([p.suffix]) != sx:
            return 'writes %r, the requested extension was %s' % (p, sx)
        rest = text(list(ps[1:]))
        if not isinstance(rest, str):
            raise Undecided('name %r' % p)
        if not rest.startswith(mid):
            return 'file %r does not keep the requested name' % p
        q = p.suffix
        if text([q]) == '':
            return 'file %r has lost its extension' % p
    return None


# ----------------------------------------------------------------- C01
def C01(tier):
    L = Losa('C01', tier)
    c = L.c
    for fn, mk, mid, sx, sup, repl in saver_variants(tier):
        for ov in (True, False, 0):
            for ap in (False, True):
                if ap and (sx not in (SAVERS[fn][1][0], '')):
                    continue
                if ov == 0 and ov is not False and (
                        ap or mid or sx != SAVERS[fn][1][0]):
                    continue
                what = 'name %s%s, overwrite=%s%s' % (
                    mid, sx or '(none)', ov, ', Path' if ap else '')
                kw = dict(mk(), overwrite=ov, file_path=request(mid, sx, ap))

                def drv(r, kw=kw):
                    return call(r, LOSA, fn, **fresh_args(kw))
                outs = L.paths('no-overwrite', fn, drv, what=what,
                               unroll=4, failures=True)
                L.judge('no-overwrite' if not ov else 'requested-name', fn,
                        outs, lambda o: c01(o, mid, sx, sup, ov), what)
        # many files already there
        n = 10500 if tier == 'quick' else 100500
        if sx != SAVERS[fn][1][0] or mid:
            continue
        for m in (7, n):
            def pol(r, k, m=m):
                if k[0] in ('exists', 'isfile'):
                    if k[1] == key(FOLDER):
                        return True
                    if k[1][0] == 'P':
                        r.seen = getattr(r, 'seen', 0) + 1
                        return r.seen <= m
                return None
            kw = dict(mk(), overwrite=False, file_path=request(mid, sx))

            def drv(r, kw=kw):
                return call(r, LOSA, fn, **fresh_args(kw))
            what = '%d taken names' % m
            outs = L.paths('no-overwrite', fn, drv, what=what,
                           unroll=m + 5, steps=400 * m + 5000,
                           failures=False, policy=pol, loop=(1,))
            L.judge('no-overwrite', fn, outs,
                    lambda o: c01(o, mid, sx, sup, False), what)
    return c.finish(RULE + ' Checked here: with overwriting disabled every '
                    'file opened for writing is one the same path has found '
                    'not to exist (or is opened exclusively), in the '
                    'requested folder with the requested stem and '
                    'extension; with overwriting enabled the requested name '
                    'is the one written; nothing is deleted or moved away.',
                    ASSUME)


def fresh_args(kw):
    return {k: (list(v) if isinstance(v, list) else v)
            for k, v in kw.items()}


def c01(o, mid, sx, sup, ov):
    mine = set()
    for e in o.events:
        if e.kind == 'listing' and not ov:
            raise Undecided('directory listing decides the name')
        if e.kind == 'delete' and e.path.key not in mine:
            return e.where, 'removes or moves away %r' % e.path
        if e.kind != 'write':
            continue
        if e.path.key in mine:
            continue
        if not ov and e.existed is not False:
            return e.where, 'opens %r for writing although %s' % (
                e.path, 'it exists' if e.existed
                else 'nothing has shown that it does not exist')
        mine.add(e.path.key)
    if o.kind == 'cut':
        return None
    for p, e in final_writes(o).values():
        b = name_problem(p, mid, sx, sup, ov)
        if b:
            return e.where, b
    return None


# ----------------------------------------------------------------- C02
def C02(tier):
    L = Losa('C02', tier)
    for fn, mk, mid, sx, sup, repl in saver_variants(tier):
        for ov in (True, False):
            for ap in (False, True):
                if ap and (sx not in (SAVERS[fn][1][0], '')):
                    continue
                what = 'name %s%s, overwrite=%s%s' % (
                    mid, sx or '(none)', ov, ', Path' if ap else '')
                kw = dict(mk(), overwrite=ov, file_path=request(mid, sx, ap))

                def drv(r, kw=kw):
                    return call(r, LOSA, fn, **fresh_args(kw))
                outs = L.paths('reported-path', fn, drv, what=what, unroll=3)
                L.judge('reported-path', fn, outs,
                        lambda o: c02(o, fn, mid, sx, sup), what)
                L.judge('folder-created', fn, outs,
                        lambda o: folder_created(o, sup or repl), what)
    return L.c.finish(RULE + ' Checked here: every returning path has written '
                      'exactly one file, the value it returns is the path of '
                      'that file, in the requested folder and under the '
                      'requested stem; no path fails because the parent '
                      'folder is missing.', ASSUME)


def c02(o, fn, mid, sx, sup):
    if o.kind != 'return':
        return None
    w = final_writes(o)
    if not w:
        return None, 'returns without having written a file'
    if len(w) > 1:
        e = list(w.values())[1][1]
        return e.where, 'leaves %d files behind: %s' % (
            len(w), ', '.join(repr(p) for p, _ in w.values()))
    p, e = list(w.values())[0]
    b = name_problem(p, mid, sx, sup, False)
    if b:
        return e.where, b
    v = o.value
    if isinstance(v, H) and v.kind == 'dataset':
        v = v.file.path
    if v is None:
        return None, 'does not report the path written'
    if isinstance(v, S):
        v = o.run.lib.to_path(v)
    if not isinstance(v, P):
        raise Undecided('returned value %r' % (v,))
    if v.key != p.key:
        return e.where, 'returns %r but wrote %r' % (v, p)
    return None


def folder_created(o, valid):
    if o.kind != 'raise':
        return None
    f = [e for e in o.events if e.kind == 'iofail']
    if valid and f and f[-1].what == 'folder of that name':
        return f[-1].where, 'a folder is created under the name of the file'
    if f and f[-1].what in ('missing folder',):
        return f[-1].where, 'the parent folder is not created before writing'
    if f and f[-1].what == 'mkdir' and f[-1].cls == 'FileNotFoundError':
        return f[-1].where, 'missing parent folders are not created'
    if o.value.cls == 'FileExistsError' and o.value.origin == 'exists':
        e = [x for x in o.events if x.kind == 'write']
        if not e:
            return None, 'fails when the folder already exists'
    return None


# ----------------------------------------------------------------- C03
def excused(o, f):
    """a failed operation that was carried out after all"""
    i = o.events.index(f)
    p = getattr(f, 'path', None)
    for e in o.events[i + 1:]:
        if e.kind in ('write', 'read') and p is not None:
            if e.path.key == p.key:
                return True
            if f.what == 'mkdir' and e.kind == 'write':
                return True
    return False


def c03_swallow(o):
    if o.kind != 'return':
        return None
    for e in o.events:
        if e.kind == 'iofail' and not excused(o, e):
            return e.where, 'a failure (%s, %s) here does not reach the ' \
                'caller' % (e.what, e.cls)
    return None


def c03_readonly(o):
    for e in o.events:
        if e.kind in ('write', 'mkdir', 'delete', 'put', 'dataset'):
            return e.where, 'a loading function changes the disk: %s %r' % (
                e.kind, getattr(e, 'path', ''))
    return None


def c03_missing(o):
    if o.kind == 'return':
        for k, v in o.facts.items():
            if v is False and k[0] in ('exists', 'isfile') and \
                    k[1] == request('', '.abc').key:
                return None, 'returns a result although the file does not ' \
                    'exist'
            if v is False and k[0] == 'haskey':
                return None, 'returns a result although the dataset is ' \
                    'missing'
            if k == ('h5type', T('sym', 'key').key) and v == 'missing' and \
                    o.run.fname in ('load_hdf_file', 'load_hdf_object'):
                return None, 'returns a result although the object is missing'
            if k[0] == 'len' and v == 0 and o.run.fname == 'find_file':
                return None, 'returns although nothing matches'
        if o.run.fname in ('load_hdf_file', 'load_hdf_object') and \
                o.value is None:
            return None, 'returns None instead of failing'
    return None


def C03(tier):
    L = Losa('C03', tier)
    for fn, mk, mid, sx, sup, repl in saver_variants(tier):
        if mid or sx != sx.lower():
            continue
        for ov in (True, False):
            what = 'name %s, overwrite=%s' % (sx or '(none)', ov)
            kw = dict(mk(), overwrite=ov, file_path=request(mid, sx))

            def drv(r, kw=kw):
                return call(r, LOSA, fn, **fresh_args(kw))
            outs = L.paths('failures-reach-caller', fn, drv, what=what,
                           unroll=2)
            L.judge('failures-reach-caller', fn, outs, c03_swallow, what)
    runs = [(fn, kw) for fn, ks in LOADERS.items() for kw in ks]
    for fn, kw in runs:
        for ap in (False, True):
            k2 = dict(kw, file_path=request('', '.abc', ap))

            def drv(r, k2=k2, fn=fn):
                r.fname = fn
                return call(r, LOSA, fn, **k2)
            what = '%s%s' % (', '.join(sorted(kw)) or 'defaults',
                             ', Path' if ap else '')
            outs = L.paths('failures-reach-caller', fn, drv, what=what,
                           loop=(0, 3) if fn == 'load_metadata_txt'
                           else (0, 2), h5nd=(2, 3, 1, 4) if 'key_path' in kw
                           else (2,))
            L.judge('failures-reach-caller', fn, outs, c03_swallow, what)
            L.judge('loaders-read-only', fn, outs, c03_readonly, what)
            L.judge('missing-raises', fn, outs, c03_missing, what)
    for ap in (False, True):
        def drv(r, ap=ap):
            r.fname = 'find_file'
            return call(r, LOSA, 'find_file', path=request('', '*.abc', ap))
        outs = L.paths('loaders-read-only', 'find_file', drv, what='pattern')
        L.judge('loaders-read-only', 'find_file', outs, c03_readonly,
                'pattern')
        L.judge('missing-raises', 'find_file', outs, c03_missing, 'pattern')
    # library switches that make a damaged file load without an error
    truncated(L)
    refused(L, 'missing-raises')
    return L.c.finish(RULE + ' Checked here: no path that contains a failed '
                      'I/O operation returns normally (unless the operation '
                      'was repeated with success), loading/listing/searching '
                      'paths contain no effect that changes the disk, and no '
                      'path on which the file or dataset is missing returns '
                      'a result.', ASSUME)


def truncated(L):
    """no module makes PIL accept damaged files"""
    m = L.c.mods[LOSA]
    bad = [n for n in ast.walk(m.tree) if
           isinstance(n, (ast.Attribute, ast.Name)) and
           isinstance(n.ctx, ast.Store) and
           (n.attr if isinstance(n, ast.Attribute) else n.id) ==
           'LOAD_TRUNCATED_IMAGES'] + \
          [n for n in ast.walk(m.tree) if isinstance(n, ast.Constant) and
           n.value == 'LOAD_TRUNCATED_IMAGES']
    bad = [n for n in bad if not any(
        isinstance(a, ast.Assign) and n in a.targets and
        isinstance(a.value, ast.Constant) and not a.value.value
        for a in ast.walk(m.tree))]
    w = self_where(m, bad[0]) if bad else L.where('load_image')
    if bad:
        L.c.bad('failures-reach-caller', w, 'image files that are cut off '
                'load without an error')
    else:
        L.c.ok('failures-reach-caller', w, 'library switches')


def self_where(m, n):
    return '%s:%d' % (getattr(m, 'path', LOSA), n.lineno)


# ----------------------------------------------------------------- C04
def C04(tier):
    L = Losa('C04', tier)
    types = ['float', 'int', 'npfloat64', 'npfloat32', 'npfloat16',
             'npint64', 'npint32', 'npint16', 'npint8', 'npuint64',
             'npuint32', 'npuint16', 'npuint8']
    counts = [0, 1, 2, 3, 5, 12] if tier == 'quick' else list(range(0, 31))
    for save, load, sx in (('save_metadata_txt', 'load_metadata_txt', '.txt'),
                           ('save_metadata_json', 'load_metadata_json',
                            '.json')):
        for n in counts:
            for t in types if n in (3, 0) or tier != 'quick' else types[:1]:
                for box in ('list', 'tuple', 'array'):
                    if box == 'array' and (n == 0 or not t.startswith('np')
                                           and t != 'float'):
                        continue
                    xc, yc = num('xc', t), num('yc', t)
                    ks = [num('k%d' % i, 'npfloat64' if box == 'array' and
                              t == 'float' else t) for i in range(n)]
                    lf = list(ks) if box == 'list' else tuple(ks) if \
                        box == 'tuple' else A('vec', tuple(ks), nd=1,
                                              dims=(n,))

                    def drv(r):
                        p = call(r, LOSA, save, file_path=request('', sx),
                                 xcenter=xc, ycenter=yc,
                                 list_fact=list(lf) if box == 'list' else lf)
                        return call(r, LOSA, load, file_path=p)

                    def test(o):
                        if o.kind == 'raise':
                            return None, 'the saved file cannot be loaded ' \
                                'back (%s)' % o.value.cls
                        v = o.value
                        if not isinstance(v, (tuple, list)) or len(v) != 3:
                            raise Undecided('returned value')
                        for nm, a, b in (('x-center', v[0], xc),
                                         ('y-center', v[1], yc)):
                            if key(a) != key(b):
                                return None, '%s comes back as %r' % (nm, a)
                        got = v[2]
                        if isinstance(got, A) and got.op == 'vec':
                            got = got.args[0]
                        if not isinstance(got, (list, tuple)):
                            if any(q in repr(key(got)) for q in (
                                    "'round", "'rint'", "'around'",
                                    "'floor'", "'trunc'")):
                                return None, 'the coefficients are ' \
                                    'rounded: %r' % (got,)
                            raise Undecided('coefficients %r' % (got,))
                        if len(got) != n:
                            return None, '%d coefficients come back for ' \
                                '%d' % (len(got), n)
                        for i, (a, b) in enumerate(zip(got, ks)):
                            if key(a) != key(b):
                                return None, 'coefficient %d comes back as ' \
                                    '%r' % (i, a)
                        return None
                    what = '%d coefficients, %s of %s' % (n, box, t)
                    outs = L.paths('round-trip', save, drv, what=what,
                                   failures=False, unroll=2)
                    L.judge('round-trip', load, outs, test, what)
    return L.c.finish(RULE + ' Checked here: the value flow of each number '
                      'from the saving function through the written text '
                      'back out of the loading function is the identity '
                      '(same center, same coefficients, same order and '
                      'number, no rounding format), for every supported '
                      'number type and container.', ASSUME)


# ----------------------------------------------------------------- C05
def strip(v):
    """forget copies and widening casts"""
    while isinstance(v, A) and v.op in ('cast', 'copy'):
        if v.op == 'cast' and v.args[1] not in ('float32', 'float64'):
            break
        v = v.args[0]
    return v


FULL = ('all',)


def refused(L, rule):
    # a selection that cannot be served as asked for is refused
    for ax in (0, 1, 2):
        for what, ix in (('index 20 of 6..8', 20), ('index -9', -9),
                         ('[4, 1, 3, 2]', [4, 1, 3, 2]),
                         ('(3, 9, 1, 2)', (3, 9, 1, 2)),
                         ('[0, 4, 20, 5]', [0, 4, 20, 5])):
            dn = A('sym', 'data', nd=3, dims=[6, 7, 8])

            def drv(r):
                return call(r, LOSA, 'load_hdf_file',
                            file_path=request('', '.hdf'), key_path='entry',
                            index=list(ix) if isinstance(ix, list) else ix,
                            axis=ax)

            def test(o):
                if o.kind != 'return':
                    return None
                v = strip(o.value)
                if isinstance(v, A) and v.op == 'sel' and \
                        isinstance(ix, (list, tuple)):
                    want = [FULL] * 3
                    want[ax] = ('list', tuple(ix))
                    if key(list(v.args[1])) == key(want):
                        return None
                if isinstance(v, A) and v.op == 'sel':
                    return None, 'returns %r of a dataset of shape ' \
                        '(6, 7, 8)' % (v.args[1],)
                raise Undecided('selection %r' % (v,))
            w = 'axis %d, %s' % (ax, what)
            outs = L.paths(rule, 'load_hdf_file', drv, what=w,
                           failures=False, dataset=dn)
            L.judge(rule, 'load_hdf_file', outs, test, w)


def C05(tier):
    L = Losa('C05', tier)
    # HDF save and default-key load
    for nd in (2, 3):
        for kp in ({}, {'key_path': 'entry/sub'}):
            idata = A('sym', 'idata', nd=nd)

            def drv(r):
                p = call(r, LOSA, 'save_hdf_file', idata=idata,
                         file_path=request('', '.hdf'), **kp)
                return call(r, LOSA, 'load_hdf_file', file_path=p)

            def test(o):
                ds = o.evs('dataset')
                if not ds:
                    return None, 'no dataset is created'
                for e in ds:
                    if key(e.data) != key(idata) or e.dtype is not None:
                        return e.where, 'stores %r instead of the data ' \
                            'given' % (e.data,)
                if o.kind == 'raise':
                    return None, 'loading without a key fails (%s)' % \
                        o.value.cls
                if key(strip(o.value)) != key(idata):
                    return None, 'loading returns %r' % (o.value,)
            what = '%dD data, key %s' % (nd, kp.get('key_path', 'default'))
            outs = L.paths('hdf-round-trip', 'save_hdf_file', drv, what=what,
                           failures=False)
            L.judge('hdf-round-trip', 'save_hdf_file', outs, test, what)
    # the data set named 'data' is found among others
    for other in ('aux/data_dark', 'aux/dark_data', 'aux/Data',
                  'entry/dat', 'aux/sub/dataset'):
        for key_ in ('entry/data', 'entry/sub/data'):
            idata = A('sym', 'idata', nd=3)

            def drv(r):
                q = request('', '.hdf')
                r.fs[q.key] = ('h5', D([(other, A('sym', 'other', nd=3)),
                                        (key_, idata)]))
                r.facts[('exists', q.key)] = True
                return call(r, LOSA, 'load_hdf_file', file_path=q)

            def test(o):
                if o.kind == 'raise':
                    return None, 'loading without a key fails (%s)' % \
                        o.value.cls
                if key(strip(o.value)) != key(idata):
                    return None, 'loading returns %r' % (o.value,)
            what = '%s next to %s' % (key_, other)
            outs = L.paths('hdf-default-key', 'load_hdf_file', drv,
                           what=what, failures=False)
            L.judge('hdf-default-key', 'load_hdf_file', outs, test, what)
    # selection
    data = A('sym', 'data', nd=3)
    i = num('i', 'int')
    sel = [('index i', i, ('int', i)), ('numpy index', num('i', 'npint64'),
                                        ('int', num('i', 'npint64'))),
           ('index 4', 4, ('int', 4)), ('index 0', 0, ('int', 0)),
           ('(1, 5)', (1, 5), ('list', (1, 2, 3, 4))),
           ('[1, 5]', [1, 5], ('list', (1, 2, 3, 4))),
           ('(0, 9, 3)', (0, 9, 3), ('list', (0, 3, 6))),
           ('[2, 8, 2]', [2, 8, 2], ('list', (2, 4, 6))),
           ('(2, 3)', (2, 3), ('int', 2)),
           ('[4, 6, 7, 9]', [4, 6, 7, 9], ('list', (4, 6, 7, 9))),
           ('(0, 1, 5, 8, 9)', (0, 1, 5, 8, 9), ('list', (0, 1, 5, 8, 9))),
           ('[7]', [7], ('int', 7))]
    for ax in (0, 1, 2):
        for what, ix, s in sel:
            want = [FULL] * 3
            want[ax] = s

            def drv(r):
                return call(r, LOSA, 'load_hdf_file',
                            file_path=request('', '.hdf'), key_path='entry',
                            index=list(ix) if isinstance(ix, list) else ix,
                            axis=ax)

            def test(o):
                if o.kind == 'raise':
                    if o.facts.get(('exists', request('', '.hdf').key)) is \
                            False or any(k[0] == 'haskey' and v is False
                                         for k, v in o.facts.items()):
                        return None
                    if any(k[0] in ('==', '<') for k in o.facts):
                        return None
                    return None, 'a valid selection fails (%s)' % o.value.cls
                v = strip(o.value)
                if not isinstance(v, A):
                    return None, 'returns %r' % (v,)
                if v.op != 'sel':
                    raise Undecided('selection %r' % (v,))
                if key(v.args[0]) != key(data) or \
                        key(list(v.args[1])) != key(want):
                    return None, 'returns %r of the data' % (v.args[1],)
            w = 'axis %d, %s' % (ax, what)
            outs = L.paths('hdf-selection', 'load_hdf_file', drv, what=w,
                           failures=False, dataset=data)
            L.judge('hdf-selection', 'load_hdf_file', outs, test, w)
    refused(L, 'hdf-selection')
    for nd, kw in ((2, {}), (3, {}), (2, dict(index=1)), (2, dict(axis=1))):
        dn = A('sym', 'data', nd=nd)

        def drv(r):
            return call(r, LOSA, 'load_hdf_file', key_path='entry',
                        file_path=request('', '.hdf'), **kw)

        def test(o):
            if o.kind == 'return' and key(strip(o.value)) != key(dn):
                return None, 'returns %r' % (o.value,)
            if o.kind == 'raise' and o.value.cls == 'IndexError':
                return None, 'fails'
        w = 'whole %dD dataset %s' % (nd, kw or '')
        outs = L.paths('hdf-selection', 'load_hdf_file', drv, what=w,
                       failures=False, dataset=dn)
        L.judge('hdf-selection', 'load_hdf_file', outs, test, w)
    # data sets that are not 2D or 3D are refused
    for nd in (1, 4):
        dn = A('sym', 'data', nd=nd)

        def drv(r):
            return call(r, LOSA, 'load_hdf_file', key_path='entry',
                        file_path=request('', '.hdf'))

        def test(o):
            if o.kind == 'return':
                return None, 'accepts a %dD dataset' % nd
        outs = L.paths('hdf-selection', 'load_hdf_file', drv,
                       what='%dD dataset' % nd, failures=False, dataset=dn)
        L.judge('hdf-selection', 'load_hdf_file', outs, test,
                '%dD dataset' % nd)
    # live datasets
    objs = A('sym', 'data', nd=3)

    def drv(r):
        return call(r, LOSA, 'load_hdf_object', key_path='entry/data',
                    file_path=request('', '.hdf'))

    def test(o):
        if o.kind == 'return':
            v = o.value
            if not isinstance(v, H) or v.kind != 'dataset':
                raise Undecided('returned value')
            if v.ident_key != 'entry/data':
                return None, 'opens %r' % (v.ident_key,)
            if v.file.closed:
                return None, 'the file of the live dataset is closed'
    outs = L.paths('hdf-live', 'load_hdf_object', drv, failures=False,
                   dataset=objs, what='live dataset')
    L.judge('hdf-live', 'load_hdf_object', outs, test, 'live dataset')
    for meta in (False, True):
        shp = tuple(num('d%d' % k, 'int') for k in range(3))
        extra = A('sym', 'angles', nd=1)
        kw = {'options': D([('entry/angles', extra)])} if meta else {}

        def drv(r):
            return call(r, LOSA, 'open_hdf_stream', data_shape=shp,
                        key_path='entry/data', data_type='uint16',
                        file_path=request('', '.hdf'), **kw)

        def test(o):
            if o.kind == 'raise':
                return None, 'fails (%s)' % o.value.cls
            v = o.value
            if not isinstance(v, H) or v.kind != 'dataset':
                return None, 'does not return the dataset'
            ds = {repr(e.key): e for e in o.evs('dataset')}
            e = ds.get(repr('entry/data'))
            if e is None or v.ident_key != 'entry/data':
                return None, 'does not create the requested dataset'
            if key(e.shape) != key(shp):
                return e.where, 'creates shape %r' % (e.shape,)
            if e.dtype != 'uint16':
                return e.where, 'creates type %r' % (e.dtype,)
            if meta:
                m = ds.get(repr('entry/angles'))
                if m is None or key(m.data) != key(extra):
                    return None, 'metadata are not stored as given'
        what = 'stream%s' % (' with metadata' if meta else '')
        outs = L.paths('hdf-stream', 'open_hdf_stream', drv, failures=False,
                       what=what)
        L.judge('hdf-stream', 'open_hdf_stream', outs, test, what)
    # pickle
    obj = T('sym', 'plist')

    def drv(r):
        p = call(r, LOSA, 'save_python_list', python_list=obj,
                 file_path=request('', '.pkl'))
        return call(r, LOSA, 'load_python_list', file_path=p)

    def test(o):
        if o.kind == 'raise':
            return None, 'fails (%s)' % o.value.cls
        if key(o.value) != key(obj):
            return None, 'comes back as %r' % (o.value,)
    outs = L.paths('pickle-round-trip', 'save_python_list', drv,
                   failures=False, what='any object')
    L.judge('pickle-round-trip', 'save_python_list', outs, test,
            'any object')
    images(L)
    return L.c.finish(RULE + ' Checked here: the data handed to the HDF, '
                      'pickle and image writers is the term given by the '
                      'caller; the selection applied to an HDF dataset is '
                      'the requested one, axis by axis; the rescaling of '
                      'images is a linear map of the minimum to 0 and the '
                      'maximum to 255 (evaluated in the element type).',
                      ASSUME)


def images(L):
    for dt in ('float32', 'float64', 'uint8', 'uint16', 'int16', 'int32'):
        for sx in ('.tif', '.tiff', '.TIF', '.png', '.jpg', '.PNG', '.bmp'):
            mat = A('sym', 'mat', nd=2, dtype=dt)
            tif = sx.lower() in ('.tif', '.tiff')

            def drv(r):
                p = call(r, LOSA, 'save_image', mat=mat,
                         file_path=request('', sx))
                return r.fs.get(r.lib.to_path(p).key), \
                    call(r, LOSA, 'load_image', file_path=p)

            def test(o):
                if o.kind == 'raise':
                    return None, 'fails (%s)' % o.value.cls
                px, back = o.value
                if px is None or px[0] != 'image':
                    raise Undecided('no image written')
                px = px[1]
                if key(strip(back)) != key(strip(px)):
                    return None, 'loading changes the pixels: %r' % (back,)
                if tif or dt == 'uint8':
                    if key(strip(px)) != key(mat):
                        return None, 'the pixels written are %r' % (px,)
                    return None
                return rescale(px, dt, o)
            what = '%s %s' % (dt, sx)
            outs = L.paths('image-pixels', 'save_image', drv, what=what,
                           failures=False)
            L.judge('image-pixels', 'save_image', outs, test, what)
    # colour images when loading
    for av in (True, False):
        for nd in (2, 3):
            px = A('sym', 'pix', nd=nd)

            def drv(r):
                q = request('', '.png')
                r.fs[q.key] = ('image', px)
                return call(r, LOSA, 'load_image', file_path=q, average=av)

            def test(o):
                if o.kind == 'raise':
                    return None
                v = strip(o.value)
                if nd == 3 and av:
                    if not (isinstance(v, A) and v.op in ('mean', 'average')
                            and key(strip(v.args[0])) == key(px) and
                            v.args[1] in (-1, 2)):
                        if isinstance(v, A) and v.op in ('mean', 'sel') or \
                                key(v) == key(px):
                            return None, 'returns %r' % (v,)
                        raise Undecided('average %r' % (v,))
                elif key(v) != key(px):
                    return None, 'returns %r' % (v,)
            what = '%dD image, average=%s' % (nd, av)
            outs = L.paths('image-load', 'load_image', drv, what=what,
                           failures=False)
            L.judge('image-load', 'load_image', outs, test, what)


RANGE = {'int8': (-128, 127), 'uint8': (0, 255), 'int16': (-32768, 32767),
         'uint16': (0, 65535), 'int32': (-2 ** 31, 2 ** 31 - 1),
         'int64': (-2 ** 63, 2 ** 63 - 1)}


def ev(t, env, dt):
    """(value, element type) of a scalar expression of the image"""
    def wrap(x, d):
        if d in RANGE:
            lo, hi = RANGE[d]
            return (int(x) - lo) % (hi - lo + 1) + lo
        return x
    if isinstance(t, bool):
        return int(t), 'py'
    if isinstance(t, int):
        return t, 'py'
    if isinstance(t, float):
        return t, 'float'
    if not isinstance(t, T):
        raise Undecided('rescaling by %r' % (t,))
    o, a = t.op, t.args
    if o == 'sym':
        return env['m'], dt
    if o in ('min', 'max', 'maximum', 'minimum', 'fmax', 'fmin') and \
            len(a) == 2:
        x, y = ev(a[0], env, dt), ev(a[1], env, dt)
        f = max if 'ma' in o else min
        return f(x[0], y[0]), 'float' if 'float' in x[1] + y[1] else \
            (y[1] if x[1] == 'py' else x[1])
    if o in ('min', 'max', 'nanmin', 'nanmax') and len(a) == 1:
        return env['a' if o.endswith('min') else 'b'], \
            {'float': 'float', 'int': 'py'}.get(t.typ, dt)
    s = statistic(o, a[1] if len(a) > 1 else None)
    if s is not None:
        return env['a'] + s * (env['b'] - env['a']), 'float'
    if o == 'ptp':
        return wrap(env['b'] - env['a'], dt), dt
    if o == 'copy':
        return ev(a[0], env, dt)
    if o == 'cast':
        v, d = ev(a[0], env, dt)
        return wrap(v, a[1]), a[1]
    if o == 'float':
        return float(ev(a[0], env, dt)[0]), 'float'
    if o == 'int':
        return int(ev(a[0], env, dt)[0]), 'py'
    if o in ('+', '-', '*', '/'):
        x, d = ev(a[0], env, dt)
        y, e = ev(a[1], env, dt)
        if o == '/':
            if y == 0:
                raise Undecided('division by zero')
            return x / y, 'float'
        r = x + y if o == '+' else x - y if o == '-' else x * y
        if 'float' in d or 'float' in e:
            return r, 'float'
        d = e if d == 'py' else d
        return wrap(r, d), d
    if o in ('round', 'rint', 'around', 'floor', 'trunc', 'ceil'):
        import math
        v, d = ev(a[0], env, dt)
        f = {'floor': math.floor, 'trunc': math.trunc,
             'ceil': math.ceil}.get(o, round)
        return f(v), d
    if o == 'clip' and len(a) >= 3:
        v, d = ev(a[0], env, dt)
        return min(max(v, ev(a[1], env, dt)[0]), ev(a[2], env, dt)[0]), d
    raise Undecided('rescaling by %s' % o)


def statistic(op, q):
    """where between minimum and maximum a statistic of an image may lie
    (None: not one)"""
    op = op.split('.')[-1]
    if q is None and op in ('mean', 'average', 'median'):
        return 0.3
    if isinstance(q, (int, float)) and op in ('percentile', 'nanpercentile',
                                              'quantile'):
        q = q / 100.0 if 'percentile' in op else q
        return 0.03 + 0.94 * q if 0 < q < 1 else q
    return None


def kev(k, env):
    """value of a recorded comparison operand (None: not known)"""
    if not isinstance(k, tuple) or not k:
        return None
    o = k[0]
    if o == 'num':
        return k[1]
    if o in ('min', 'max', 'maximum', 'minimum') and len(k) == 3:
        x, y = kev(k[1], env), kev(k[2], env)
        return None if x is None or y is None else \
            max(x, y) if 'ma' in o else min(x, y)
    if o in ('min', 'nanmin', 'amin') and k[1:] == (MAT,):
        return env['a']
    if o in ('max', 'nanmax', 'amax') and k[1:] == (MAT,):
        return env['b']
    if len(k) in (2, 3) and k[1] == MAT:
        s = statistic(o, kev(k[2], env) if len(k) == 3 else None)
        if s is not None:
            return env['a'] + s * (env['b'] - env['a'])
    if o == 'size' and k[1:] == (MAT,):
        return env['n']
    if o == 'ptp' and k[1:] == (MAT,):
        return env['b'] - env['a']
    if o in ('float', 'int', 'abs') and len(k) == 2:
        v = kev(k[1], env)
        return None if v is None else {'float': float, 'int': int,
                                       'abs': abs}[o](v)
    if o in ('+', '-', '*', '/') and len(k) == 3:
        x, y = kev(k[1], env), kev(k[2], env)
        if x is None or y is None or o == '/' and y == 0:
            return None
        return x + y if o == '+' else x - y if o == '-' else \
            x * y if o == '*' else x / y
    return None


MAT = ('sym', ('str', 'mat'))


def possible(o, env):
    """do the comparisons of this path hold for such an image?"""
    for k, v in o.facts.items():
        if k[0] not in ('==', '<', '<=') or len(k) != 3 or \
                repr(MAT) not in repr(k):
            continue
        x, y = kev(k[1], env), kev(k[2], env)
        if x is None or y is None:
            raise Undecided('condition %r' % (k,))
        if {'==': x == y, '<': x < y, '<=': x <= y}[k[0]] is not v:
            return False
    return True


def rescale(px, dt, o):
    rnd = random.Random(5)
    for n in range(40):
        if dt.startswith('float'):
            a = [rnd.uniform(-50, 50), 0.0, rnd.uniform(0, 1),
                 rnd.uniform(-2000, 900), rnd.uniform(-9, 0)][n % 5]
            b = a + [rnd.uniform(1, 900), 1.0, rnd.uniform(1, 200),
                     rnd.uniform(300, 90000)][n % 4]
            ms = [a, b] + [rnd.uniform(a, b) for _ in range(4)]
        else:
            lo, hi = RANGE[dt]
            a = rnd.choice([lo, 0, rnd.randint(lo, hi // 2),
                            rnd.randint(0, 100)])
            b = rnd.choice([hi, rnd.randint(hi // 2 + 1, hi),
                            a + rnd.randint(1, 150)])
            ms = [a, b] + [rnd.randint(a, b) for _ in range(4)]
        if b > 255 and a < 0 and dt == 'int8' or \
                not possible(o, dict(a=a, b=b,
                                     n=(100, 10 ** 4, 10 ** 7)[n % 3])):
            continue
        for m in ms:
            v, d = ev(px, dict(m=m, a=a, b=b), dt)
            w = 255.0 * (m - a) / (b - a)
            if m == a and abs(v) > 1e-6 or m == b and abs(v - 255) > 0.51 \
                    and v != 254 or abs(v - w) > 1.001:
                return None, 'a pixel of value %s of an image between %s ' \
                    'and %s is stored as %s instead of %.1f' % (m, a, b, v,
                                                                w)
    return None


# ----------------------------------------------------------------- C06
def C06(tier):
    L = Losa('C06', tier)
    for fn, mk, mid, sx, sup, repl in saver_variants(tier):
        if mid or sx != sx.lower():
            continue
        for ov in (True, False):
            what = 'name %s, overwrite=%s' % (sx or '(none)', ov)
            kws = [mk()]
            if fn == 'open_hdf_stream':
                kws.append(dict(mk(), key_path=T('sym', 'kp', typ='str'),
                                options=D([(T('sym', 'okey', typ='str'),
                                            A('sym', 'odata', nd=1))])))
            for kw in kws:
                kw = dict(kw, overwrite=ov, file_path=request(mid, sx))

                def drv(r, kw=kw):
                    r.fname = fn
                    return call(r, LOSA, fn, **fresh_args(kw))
                outs = L.paths('handles-closed', fn, drv, what=what,
                               unroll=2)
                L.judge('handles-closed', fn, outs, c06_handles, what)
                if 'plot' in fn:
                    L.judge('plot-settings', fn, outs, c06_plot, what)
    for fn, ks in LOADERS.items():
        for kw in ks:
            k2 = dict(kw, file_path=request('', '.abc'))

            def drv(r, k2=k2, fn=fn):
                r.fname = fn
                return call(r, LOSA, fn, **k2)
            what = ', '.join(sorted(kw)) or 'defaults'
            outs = L.paths('handles-closed', fn, drv, what=what,
                           h5nd=(2, 3, 1, 4) if 'key_path' in kw
                           else (2,))
            L.judge('handles-closed', fn, outs, c06_handles, what)
    for nd, pad in ((2, False), (3, False), (3, True), (2, 10)):
        outs = video(L, nd, pad, 'handles-closed')
        L.judge('handles-closed', 'unwarp_video_cv2', outs, c06_handles,
                '%dD frames, pad=%s' % (nd, pad), UTIL)
    return L.c.finish(RULE + ' Checked here (typestate): on every returning '
                      'path and every path ending in an error the function '
                      'raises, each opened file, HDF file, figure and video '
                      'capture has been closed, no figure of the caller is '
                      'closed or drawn into, and every plot setting changed '
                      'has been restored.', ASSUME)


def video(L, nd, pad, rule, unroll=4):
    def drv(r):
        r.fname = 'unwarp_video_cv2'
        cam = H('cam', n=0, ended=False, nd=nd, node=None, func='caller',
                module=None)
        r.handles.append(cam)
        r.cam = cam
        return call(r, UTIL, 'unwarp_video_cv2', cam_obj=cam,
                    xcenter=num('xc'), ycenter=num('yc'),
                    list_fact=[num('k0'), num('k1')], pad=pad)

    def pad_hook(r, f, args, kw, node):
        if pad is False:
            return (0, 0, 0, 0)
        return tuple(num('pad%d' % k, 'int') for k in range(4))
    return L.paths(rule, 'unwarp_video_cv2', drv, mod=UTIL, unroll=unroll,
                   what='%dD frames, pad=%s' % (nd, pad),
                   hooks={UTIL + '._calc_pad': pad_hook,
                          UTIL + '.mapping_cv2':
                          lambda r, f, a, k, n: A('mapped', nd=nd)})


LIVE = ('load_hdf_object', 'open_hdf_stream')


def c06_handles(o):
    if o.kind == 'cut' or o.kind == 'raise' and o.value.origin != 'explicit':
        return None
    for h in o.run.handles:
        if h.closed:
            continue
        if o.kind == 'return' and o.run.fname in LIVE and h.kind == 'h5':
            continue
        w = None
        if h.node is not None and h.module is not None:
            w = '%s:%s (%s)' % (h.module.path, h.node.lineno, h.func)
        return w, 'the %s is not released when the function %s' % (
            {'h5': 'HDF file', 'file': 'file', 'fig': 'figure',
             'cam': 'video capture'}.get(h.kind, h.kind),
            'returns' if o.kind == 'return' else
            'raises %s' % o.value.cls)
    return None


def c06_plot(o):
    for e in o.events:
        if e.kind == 'closeother':
            return e.where, 'closes %s of the caller' % e.what
        if e.kind == 'drawother':
            return e.where, 'plt.%s works on a figure of the caller' % e.name
    if o.kind == 'cut' or o.kind == 'raise' and o.value.origin != 'explicit':
        return None
    ch = o.run.lib.rc_changed
    if ch:
        e = [x for x in o.events if x.kind in ('rcset', 'rcreset')]
        return e[-1].where if e else None, \
            'plot settings stay changed: %s' % ', '.join(sorted(
                str(k) for k in ch))
    return None


# ----------------------------------------------------------------- C07
def C07(tier):
    L = Losa('C07', tier)
    pat = T('sym', 'pattern', typ='str')
    for fn, kw in (('get_hdf_information', {}),
                   ('get_hdf_information', dict(display=True)),
                   ('find_hdf_key', dict(pattern=pat)),
                   ('find_hdf_key', dict(pattern=pat, display=True))):
        k2 = dict(kw, file_path=request('', '.hdf'))

        def drv(r, k2=k2, fn=fn):
            r.fname = fn
            return call(r, LOSA, fn, **k2)
        what = ', '.join(sorted(kw)) or 'defaults'
        outs = L.paths('lists-in-step', fn, drv, what=what, failures=False)
        L.judge('lists-in-step', fn, outs, c07, what)
        if 'pattern' in kw:
            L.judge('keys-match', fn, outs, lambda o: c07_match(o, pat),
                    what)
        L.judge('reads-any-tree', fn, outs, c07_raise, what)
    return L.c.finish(RULE + ' The HDF tree is unknown: 0 to 2 visited keys, '
                      'each a dataset, an empty or non-empty group, or an '
                      'unreadable link, with children of every kind. Checked '
                      'here: the three lists have one length, and entry i of '
                      'the shape and type lists are the shape and type of '
                      'the object named by key i.', ASSUME)


def c07_raise(o):
    if o.kind == 'raise' and o.facts.get(
            ('exists', request('', '.hdf').key)) is not False:
        return None, 'fails with %s for a readable file' % o.value.cls
    return None


def c07(o):
    if o.kind != 'return':
        return None
    v = o.value
    if not isinstance(v, (tuple, list)) or len(v) != 3 or \
            not all(isinstance(x, (list, tuple)) for x in v):
        raise Undecided('returned value')
    ks, ss, ts = v
    if not len(ks) == len(ss) == len(ts):
        return None, '%d keys, %d shapes, %d types are returned (tree: %s)' \
            % (len(ks), len(ss), len(ts), tree_text(o))
    for i, k in enumerate(ks):
        kk = o.run.lib.norm_key(k)
        t = o.facts.get(('h5type', key(kk)))
        for nm, x in (('shape', ss[i]), ('dtype', ts[i])):
            if isinstance(x, T) and x.op in ('h5shape', 'h5dtype'):
                if x.op != 'h5' + nm or key(x.args[0]) != key(kk):
                    return None, 'entry %d is named %r but its %s is that ' \
                        'of %r (%s)' % (i, k, nm, x.args[0], x.op)
                if t != 'dataset':
                    raise Undecided('type of %r' % (k,))
            elif x is None:
                if t in ('dataset', None):
                    return None, 'entry %d, %r: no %s is given although it ' \
                        'may be a dataset (tree: %s)' % (i, k, nm,
                                                         tree_text(o))
            else:
                raise Undecided('entry %r' % (x,))
    return None


def tree_text(o):
    return ', '.join('%s %s' % (v, k[1][-1]) for k, v in o.facts.items()
                     if k[0] == 'h5type')


def c07_match(o, pat):
    if o.kind != 'return':
        return None
    for k in o.value[0]:
        f = o.facts.get(T('in', pat, k).key)
        if f is True:
            continue
        if f is False:
            return None, 'key %r does not contain the pattern' % (k,)
        fs = [repr(q) for q in o.facts if repr(key(pat)) in repr(q) and
              repr(key(k)) in repr(q)]
        if any("'%s'" % w in q for q in fs for w in (
                'lower', 'upper', 'casefold', 'swapcase', 'strip')):
            return None, 'key %r is compared with the pattern only after ' \
                'both or one have been altered' % (k,)
        if fs:
            raise Undecided('match of %r' % (k,))
        return None, 'key %r is returned without being compared with the ' \
            'pattern' % (k,)
    return None
