"""files, folders, HDF, images, figures and plot settings"""
from .vals import *
from .run import D, Set_

PREFIX = [('matplotlib.pyplot.', 'plt'), ('matplotlib.', 'mpl'),
          ('os.path.', 'ospath'), ('PIL.Image.', 'pil'), ('h5py.', 'h5'),
          ('json.', 'json'), ('pickle.', 'pickle'), ('shutil.', 'shutil'),
          ('os.', 'os'), ('glob.', 'globmod'), ('contextlib.', 'ctxlib'),
          ('warnings.', 'warn'), ('logging.', 'warn'),
          ('tempfile.', 'tempfile'), ('numpy.', 'npio'),
          ('imageio.', 'imageio'), ('cv2.', 'cv2io'), ('random.', 'rnd'),
          ('sys.', 'sysm'), ('gc.', 'sysm')]

OPEN_FAIL = ['PermissionError', 'FileNotFoundError']


class IO:
    # -------------------------------------------------------------- paths
    def c_pathlib_Path(self, a, kw, node):
        if not a:
            return T('sym', '.', typ='path')
        p = self.to_path(a[0])
        for x in a[1:]:
            p = self.join(p, x)
        return p

    c_pathlib_PurePath = c_pathlib_Path

    def p_same(self, p, a, kw, node):
        return p

    p_resolve = p_absolute = p_expanduser = p_same

    def p_exists(self, p, a, kw, node):
        return T('exists', p, typ='bool')

    def p_is_file(self, p, a, kw, node):
        return T('isfile', p, typ='bool')

    def p_is_dir(self, p, a, kw, node):
        return T('isdir', p, typ='bool')

    def p_with_suffix(self, p, a, kw, node):
        st, _ = p.split()
        return P(p.parent, S([st, a[0]]))

    def p_with_name(self, p, a, kw, node):
        return P(p.parent, S([a[0]]))

    def p_with_stem(self, p, a, kw, node):
        return P(p.parent, S([a[0], p.suffix]))

    def p_joinpath(self, p, a, kw, node):
        for x in a:
            p = self.join(p, x)
        return p

    def p_as_posix(self, p, a, kw, node):
        return p.as_str() if isinstance(p, P) else T('as_posix', p,
                                                     typ='str')

    p___str__ = p___fspath__ = p_as_posix

    def p_mkdir(self, p, a, kw, node):
        return self.mkdir(p, node, kw.get('exist_ok', a[2] if len(a) > 2
                                          else False),
                          kw.get('parents', a[1] if len(a) > 1 else False))

    def mkdir(self, p, node, exist_ok, parents):
        r = self.r
        if not exist_ok and self.exists('exists', p):
            raise PyExc('FileExistsError', 'exists', node)
        if not parents:
            q = p.parent if isinstance(p, P) else T('parentof', p,
                                                    typ='path')
            if r.facts.get(('exists', q.key)) is not True:
                # the folder above may be missing
                if r.opts.get('failures', True) and not self.exists(
                        'exists', q):
                    r.fail('mkdir', node, 'FileNotFoundError', path=p)
        r.may_fail('mkdir', node, ['PermissionError'], path=p)
        r.event('mkdir', node, path=p)
        q = p
        while isinstance(q, (P, T)):
            r.facts[('exists', q.key)] = True
            r.facts[('isdir', q.key)] = True
            q = q.parent if isinstance(q, P) else None
        return None

    def p_open(self, p, a, kw, node):
        return self.open_(p, a[0] if a else kw.get('mode', 'r'), node)

    def p_unlink(self, p, a, kw, node):
        return self.delete(p, node)

    p_rmdir = p_unlink

    def p_rename(self, p, a, kw, node):
        return self.move(p, self.to_path(a[0]), node)

    p_replace = p_rename

    def p_touch(self, p, a, kw, node):
        self.written(p, node, 'touch')
        return None

    def p_write_text(self, p, a, kw, node):
        self.open_write(p, node, 'w')
        self.r.fs[p.key] = ('text', a[0] if isinstance(a[0], S)
                            else S([a[0]]))
        return None

    def p_write_bytes(self, p, a, kw, node):
        self.open_write(p, node, 'wb')
        v = a[0]
        self.r.fs[p.key] = ('pickle', v.args[0]) if isinstance(v, T) and \
            v.op == 'dumps' else ('bytes', v)
        return None

    def p_read_text(self, p, a, kw, node):
        h = self.open_(p, 'r', node)
        v = self.h_file_read(h, [], {}, node)
        h.closed = True
        return v

    def p_read_bytes(self, p, a, kw, node):
        h = self.open_(p, 'rb', node)
        v = T('bytesof', p, content=self.r.fs.get(p.key))
        h.closed = True
        return v

    def p_glob(self, p, a, kw, node):
        self.r.event('listing', node, path=p)
        return T('glob', p, *a, elt='path')

    p_rglob = p_glob

    def p_iterdir(self, p, a, kw, node):
        self.r.event('listing', node, path=p)
        return T('iterdir', p, elt='path')

    def p_stat(self, p, a, kw, node):
        if not self.exists('exists', p):
            self.r.fail('stat', node, 'FileNotFoundError')
        return T('stat', p)

    # os.path ---------------------------------------------------------
    def ospath(self, full, n, a, kw, node):
        if n in ('exists', 'lexists'):
            return T('exists', self.to_path(a[0]), typ='bool')
        if n == 'isfile':
            return T('isfile', self.to_path(a[0]), typ='bool')
        if n == 'isdir':
            return T('isdir', self.to_path(a[0]), typ='bool')
        if n in ('abspath', 'realpath', 'normpath', 'expanduser'):
            p = self.to_path(a[0])
            return p.as_str() if isinstance(p, P) else p
        if n == 'dirname':
            p = self.to_path(a[0])
            q = p.parent if isinstance(p, P) else T('parentof', p,
                                                    typ='path')
            return q.as_str() if isinstance(q, P) else q
        if n == 'basename':
            p = self.to_path(a[0])
            return text([p.name]) if isinstance(p, P) else \
                T('nameof', p, typ='str')
        if n == 'split':
            p = self.to_path(a[0])
            return (self.ospath(full, 'dirname', a, kw, node), text([p.name]))
        if n == 'splitext':
            v = a[0]
            if isinstance(v, P):
                st, sx = v.split()
                return (P(v.parent, st, True), text([sx]))
            if isinstance(v, (S, str)):
                q = P(T('sym', '.', typ='path'), v)
                st, sx = q.split()
                return (text([st]), text([sx]))
            raise Undecided('splitext')
        if n == 'join':
            p = self.to_path(a[0]) if not isinstance(a[0], T) else a[0]
            for x in a[1:]:
                p = self.join(p, x)
            return p.as_str() if isinstance(p, P) else p
        if n == 'getsize':
            p = self.to_path(a[0])
            if not self.exists('exists', p):
                self.r.fail('stat', node, 'FileNotFoundError')
            return T('filesize', p, typ='int')
        raise Undecided('os.path.%s' % n)

    def os(self, full, n, a, kw, node):
        if n in ('makedirs', 'mkdir'):
            self.mkdir(self.to_path(a[0]), node,
                       kw.get('exist_ok', a[2] if len(a) > 2 else False),
                       n == 'makedirs')
            return None
        if n in ('remove', 'unlink', 'rmdir'):
            return self.delete(self.to_path(a[0]), node)
        if n in ('rename', 'replace', 'renames'):
            return self.move(self.to_path(a[0]), self.to_path(a[1]), node)
        if n == 'listdir':
            self.r.event('listing', node, path=a[0])
            return T('listing', self.to_path(a[0]), elt='str')
        if n == 'fspath':
            return self.str(a[0])
        if n in ('getcwd',):
            return T('sym', '.', typ='path')
        if n in ('stat',):
            return self.p_stat(self.to_path(a[0]), [], {}, node)
        raise Undecided('os.%s' % n)

    def shutil(self, full, n, a, kw, node):
        if n in ('rmtree',):
            return self.delete(self.to_path(a[0]), node)
        if n == 'move':
            return self.move(self.to_path(a[0]), self.to_path(a[1]), node)
        if n in ('copy', 'copy2', 'copyfile'):
            p = self.to_path(a[1])
            self.open_write(p, node, 'w')
            self.r.fs[p.key] = self.r.fs.get(self.to_path(a[0]).key)
            return a[1]
        raise Undecided('shutil.%s' % n)

    def globmod(self, full, n, a, kw, node):
        self.r.event('listing', node, path=a[0])
        return T('glob', a[0], elt='str')

    def tempfile(self, full, n, a, kw, node):
        raise Undecided('tempfile')

    def sysm(self, full, n, a, kw, node):
        if full in ('gc.collect',):
            return 0
        raise Undecided(full)

    def rnd(self, full, n, a, kw, node):
        self.r.event('random', node, name=full)
        return T(full, *a)

    def delete(self, p, node):
        r = self.r
        if not self.exists('exists', p):
            r.fail('delete', node, 'FileNotFoundError', path=p)
        r.event('delete', node, path=p)
        r.facts[('exists', p.key)] = False
        r.fs.pop(p.key, None)
        return None

    def move(self, p, q, node):
        r = self.r
        self.written(q, node, 'move')
        r.event('delete', node, path=p, moved=q)
        if p.key in r.fs:
            r.fs[q.key] = r.fs.pop(p.key)
        r.facts[('exists', p.key)] = False
        return q

    # -------------------------------------------------------------- files
    def c_builtins_open(self, a, kw, node):
        mode = kw.get('mode', a[1] if len(a) > 1 else 'r')
        return self.open_(self.to_path(a[0] if a else kw['file']), mode,
                          node)

    def open_write(self, p, node, mode):
        """a file is opened for writing; returns the event"""
        r = self.r
        if 'x' in mode or mode == 'w-':
            if self.exists('exists', p):
                raise PyExc('FileExistsError', 'exists', node)
        r.may_fail('open for writing', node, ['PermissionError'], path=p)
        return self.written(p, node, mode)

    def written(self, p, node, mode):
        r = self.r
        q = p.parent
        if not self.exists('exists', q):
            r.fail('missing folder', node, 'FileNotFoundError', path=p)
        if any(e.kind == 'mkdir' and e.path.key == p.key for e in r.events):
            r.fail('folder of that name', node, 'IsADirectoryError', path=p)
        e = r.event('write', node, path=p, mode=mode,
                    existed=r.facts.get(('exists', p.key),
                                        r.facts.get(('isfile', p.key))),
                    folder=r.facts.get(('exists', q.key),
                                       r.facts.get(('isdir', q.key))))
        r.facts[('exists', p.key)] = True
        r.facts[('isfile', p.key)] = True
        return e

    def open_(self, p, mode, node):
        r = self.r
        if not isinstance(mode, str):
            raise Undecided('open mode')
        if set(mode) & set('wax+'):
            self.open_write(p, node, mode)
            h = H('file', path=p, mode=mode, node=node, func=r.env.name,
                  module=r.env.module)
            if 'a' in mode and p.key in r.fs:
                pass
            else:
                r.fs[p.key] = ('text', S([]))
        else:
            if not self.exists('exists', p):
                r.fail('open for reading', node, 'FileNotFoundError',
                       path=p)
            r.may_fail('open for reading', node, ['PermissionError'],
                       path=p)
            r.event('read', node, path=p)
            h = H('file', path=p, mode=mode, node=node, func=r.env.name,
                  module=r.env.module)
        r.handles.append(h)
        return h

    def f_write(self, h, v, node):
        r = self.r
        if h.closed or not set(h.mode) & set('wax+'):
            raise PyExc('ValueError', 'lib', node)
        r.may_fail('write', node, ['OSError'], path=h.path)
        r.event('put', node, path=h.path)
        if isinstance(v, T) and v.op in ('json', 'dumps'):
            k, c = r.fs.get(h.path.key, ('text', S([])))
            if isinstance(c, S) and not c.parts:
                r.fs[h.path.key] = ('json' if v.op == 'json' else 'pickle',
                                    v.args[0])
                return None
        k, c = r.fs.get(h.path.key, ('text', S([])))
        if k == 'json' and isinstance(v, str) and not v.strip():
            return None
        if k != 'text':
            r.fs[h.path.key] = ('mixed', None)
            return None
        r.fs[h.path.key] = ('text', S([c, v]))
        return None

    def h_file_write(self, h, a, kw, node):
        return self.f_write(h, a[0], node)

    def h_file_writelines(self, h, a, kw, node):
        for x in self.r.iterate(a[0], node):
            self.f_write(h, x, node)
        return None

    def h_file_read(self, h, a, kw, node):
        r = self.r
        if h.closed:
            raise PyExc('ValueError', 'lib', node)
        r.may_fail('read', node, ['UnicodeDecodeError'], path=h.path)
        c = r.fs.get(h.path.key)
        if c is None:
            return T('contents', h.path, typ='str')
        if c[0] == 'text':
            return text([c[1]])
        if c[0] in ('json', 'pickle'):
            return T('json' if c[0] == 'json' else 'dumps', c[1], typ='str')
        raise Undecided('read of %s' % c[0])

    def h_file_readlines(self, h, a, kw, node):
        v = self.h_file_read(h, [], {}, node)
        if isinstance(v, T):
            return T('lines', v, elt='str')
        out = self.text_method(v, 'splitlines', [], {}, node)
        return [text([x, '\n']) for x in out]

    def h_file_readline(self, h, a, kw, node):
        raise Undecided('readline')

    def h_file_flush(self, h, a, kw, node):
        return None

    def h_file_close(self, h, a, kw, node):
        h.closed = True
        self.r.event('close', node, handle=h)
        return None

    h_h5_close = h_file_close

    def h_h5_flush(self, h, a, kw, node):
        return None

    def iter_handle(self, h, node):
        if h.kind == 'file':
            v = self.h_file_readlines(h, [], {}, node)
            yield from self.r.iterate(v, node)
        elif h.kind in ('h5', 'group', 'node'):
            for k, _ in self.children(h, node):
                yield k
        elif h.kind == 'dataset':
            yield from self.iterate(h.data, node)
        else:
            raise Undecided('iterate %s' % h.kind)

    # ----------------------------------------------------- with statement
    def enter(self, m, node):
        if isinstance(m, H):
            if m.kind in ('file', 'h5', 'image', 'rcctx', 'nullctx'):
                return m if m.kind != 'nullctx' else m.value
            if m.kind == 'closing':
                return m.obj
            if m.kind == 'suppress':
                return None
        raise Undecided('context manager %r' % (m,))

    def exit(self, m, node, exc):
        """True: the exception is swallowed"""
        if m.kind in ('file', 'h5'):
            m.closed = True
            self.r.event('close', node, handle=m)
        elif m.kind == 'image':
            m.closed = True
        elif m.kind == 'closing':
            self.method(m.obj, 'close', [], {}, node)
        elif m.kind == 'rcctx':
            self.rc_changed = dict(m.saved)
        elif m.kind == 'suppress' and exc is not None:
            from .run import is_sub
            if any(is_sub(exc.cls, c.name) for c in m.classes):
                self.r.event('caught', node, exc=exc)
                return True
        return False

    def ctxlib(self, full, n, a, kw, node):
        if n == 'closing':
            return H('closing', obj=a[0])
        if n == 'suppress':
            return H('suppress', classes=a)
        if n == 'nullcontext':
            return H('nullctx', value=a[0] if a else None)
        raise Undecided('contextlib.%s' % n)

    # --------------------------------------------------------------- json
    def json(self, full, n, a, kw, node):
        r = self.r
        if n in ('dump', 'dumps'):
            tree = self.encode(a[0], kw.get('default'), node,
                               bool(kw.get('sort_keys')))
            if n == 'dumps':
                return T('json', tree, typ='str')
            h = a[1]
            if not isinstance(h, H) or h.kind != 'file':
                raise Undecided('json.dump target')
            return self.f_write(h, T('json', tree), node)
        if n in ('load', 'loads'):
            if n == 'load':
                h = a[0]
                r.may_fail('read', node, ['UnicodeDecodeError',
                                          'JSONDecodeError'], path=h.path)
                c = r.fs.get(h.path.key)
                if c is None:
                    return T('jsonof', h.path)
            else:
                v = a[0]
                if isinstance(v, T) and v.op == 'json':
                    c = ('json', v.args[0])
                elif isinstance(v, T):
                    r.may_fail('parse', node, ['JSONDecodeError'])
                    return T('jsonof', v)
                else:
                    raise Undecided('json.loads')
            if c[0] != 'json':
                raise PyExc('JSONDecodeError', 'io', node)
            return self.copy_tree(c[1])
        raise Undecided('json.%s' % n)

    def copy_tree(self, v):
        if isinstance(v, D):
            return D((k, self.copy_tree(x)) for k, x in v.items())
        if isinstance(v, list):
            return [self.copy_tree(x) for x in v]
        return v

    def encode(self, v, default, node, sort, depth=0):
        if v is None or isinstance(v, (bool, int, float, str)):
            return v
        if isinstance(v, D):
            its = []
            for k, x in v.items():
                if not isinstance(k, str):
                    k = self.str(k)
                its.append((k, self.encode(x, default, node, sort)))
            if sort:
                its.sort(key=lambda p: p[0])
            return D(its)
        if isinstance(v, (list, tuple)):
            return [self.encode(x, default, node, sort) for x in v]
        if isinstance(v, S):
            return v
        if isinstance(v, T) and not isinstance(v, A):
            if v.typ in ('float', 'int', 'npfloat64', 'bool', 'str'):
                return v
            if v.op in ('tolist',):
                return v
            if v.typ is None:
                return T('jsonvalue', v)
        if default is not None and depth < 3:
            w = self.r.call(default, [v], {}, node)
            if w is v and not isinstance(v, T):
                raise PyExc('ValueError', 'lib', node)
            if isinstance(w, T) and w == v and w.typ == v.typ:
                # int(x) / float(x) of a numpy scalar: value kept
                return w
            return self.encode(w, default, node, sort, depth + 1)
        raise PyExc('TypeError', 'lib', node)

    def pickle(self, full, n, a, kw, node):
        r = self.r
        if n == 'dump':
            return self.f_write(a[1], T('dumps', a[0]), node)
        if n == 'dumps':
            return T('dumps', a[0])
        if n == 'load':
            h = a[0]
            r.may_fail('read', node, ['UnpicklingError', 'EOFError'],
                       path=h.path)
            c = r.fs.get(h.path.key)
            if c is None:
                return T('pickled', h.path)
            if c[0] != 'pickle':
                raise PyExc('UnpicklingError', 'io', node)
            return c[1]
        if n == 'loads':
            v = a[0]
            if isinstance(v, T) and v.op == 'dumps':
                return v.args[0]
            if isinstance(v, T) and v.info.get('content'):
                return v.info['content'][1]
            r.may_fail('parse', node, ['UnpicklingError'])
            return T('pickled', v)
        if n in ('HIGHEST_PROTOCOL', 'DEFAULT_PROTOCOL'):
            return X(full)
        raise Undecided('pickle.%s' % n)

    # -------------------------------------------------------------- images
    def pil(self, full, n, a, kw, node):
        r = self.r
        if n == 'open':
            p = self.to_path(a[0]) if not isinstance(a[0], H) else a[0].path
            if not self.exists('exists', p):
                r.fail('open image', node, 'FileNotFoundError', path=p)
            r.may_fail('open image', node, ['UnidentifiedImageError',
                                            'PermissionError'], path=p)
            r.event('read', node, path=p)
            c = r.fs.get(p.key)
            if c and c[0] == 'image':
                px = c[1]
            else:
                px = A('pixels', p)
            return H('image', pixels=px, path=p)
        if n == 'fromarray':
            return H('image', pixels=a[0], path=None)
        raise Undecided('PIL.Image.%s' % n)

    IMG = {'.tif', '.tiff', '.png', '.jpg', '.jpeg', '.bmp', '.gif', '.webp'}

    def h_image_save(self, h, a, kw, node):
        p = self.to_path(a[0] if a else kw['fp'])
        r = self.r
        sx = text([p.suffix])
        if isinstance(sx, str) and sx.lower() not in self.IMG and \
                'format' not in kw and len(a) < 2:
            r.fail('save image', node, 'ValueError', path=p)
        r.may_fail('save image', node, ['OSError', 'ValueError'], path=p)
        self.written(p, node, 'image')
        r.fs[p.key] = ('image', h.pixels)
        r.event('saved', node, path=p, value=h.pixels)
        return None

    def h_image_close(self, h, a, kw, node):
        h.closed = True
        return None

    def h_image_convert(self, h, a, kw, node):
        return H('image', pixels=A('convert', h.pixels, *a), path=h.path)

    def imageio(self, full, n, a, kw, node):
        raise Undecided(full)

    def cv2io(self, full, n, a, kw, node):
        if n == 'imwrite':
            p = self.to_path(a[0])
            self.open_write(p, node, 'image')
            self.r.fs[p.key] = ('image', a[1])
            return T('cv2.imwrite', p, typ='bool')
        if n == 'imread':
            raise Undecided('cv2.imread')
        if n == 'waitKey':
            self.r.n_key = getattr(self.r, 'n_key', 0) + 1
            return T('key', self.r.n_key, typ='int')
        if n in ('imshow', 'destroyAllWindows', 'destroyWindow',
                 'namedWindow'):
            self.r.event(n, node, args=a)
            return None
        return NotImplemented

    # -------------------------------------------------------------- video
    def h_cam_get(self, h, a, kw, node):
        return T('camprop', *a)

    def h_cam_isOpened(self, h, a, kw, node):
        return not h.closed and T('camopen', typ='bool')

    def h_cam_read(self, h, a, kw, node):
        h.n += 1
        r = self.r
        if h.closed or h.ended:
            ok = False
        else:
            ok = r.fact(('frame', h.n))
        if not ok:
            h.ended = True
        r.event('frame', node, ok=ok, n=h.n)
        return (ok, A('frame', h.n, nd=h.nd, dtype='uint8') if ok else None)

    def h_cam_release(self, h, a, kw, node):
        h.closed = True
        self.r.event('close', node, handle=h)
        return None

    def npio(self, full, n, a, kw, node):
        if n in ('save', 'savez', 'savetxt', 'savez_compressed'):
            p = self.to_path(a[0])
            self.open_write(p, node, n)
            self.r.fs[p.key] = ('np', a[1] if len(a) > 1 else None)
            return None
        if n in ('load', 'loadtxt', 'genfromtxt', 'fromfile', 'memmap'):
            raise Undecided('numpy.%s' % n)
        if n in ('seterr', 'set_printoptions', 'seterrcall'):
            self.r.event('global', node, name=full)
            return T(full)
        if n.startswith('random'):
            self.r.event('random', node, name=full)
        return NotImplemented

    # ----------------------------------------------------------- plotting
    def plt(self, full, n, a, kw, node):
        r = self.r
        if n in ('figure', 'subplots'):
            f = H('fig', node=node, func=r.env.name, module=r.env.module)
            self.figs.append(f)
            r.handles.append(f)
            r.event('figure', node, fig=f)
            if n == 'subplots':
                return (f, H('axes', fig=f))
            return f
        if n in ('gcf',):
            return self.figs[-1] if self.figs else T('callerfig')
        if n == 'gca':
            return H('axes', fig=None)
        if n in ('savefig', 'imsave'):
            return self.savefig(a, kw, node)
        if n == 'close':
            v = a[0] if a else kw.get('fig')
            if isinstance(v, H) and v.kind == 'fig':
                v.closed = True
                if v in self.figs:
                    self.figs.remove(v)
                r.event('closefig', node, fig=v)
            elif v is None:
                if self.figs:
                    f = self.figs.pop()
                    f.closed = True
                    r.event('closefig', node, fig=f)
                else:
                    r.event('closeother', node, what='current figure')
            elif v == 'all':
                for f in self.figs:
                    f.closed = True
                self.figs = []
                r.event('closeother', node, what='all figures')
            else:
                raise Undecided('plt.close')
            return None
        if n in ('rc',):
            g = a[0] if a else kw.get('group')
            for k, v in kw.items():
                if k != 'group':
                    self.rc_set('%s.%s' % (g, k), v, node)
            if len(a) > 1 or not kw:
                self.rc_set('*', None, node)
            return None
        if n == 'rc_context':
            h = H('rcctx', saved=dict(self.rc_changed))
            c = a[0] if a else kw.get('rc')
            if isinstance(c, D):
                for k, v in c.items():
                    self.rc_set(k, v, node)
            return h
        if n in ('rcdefaults', 'rc_file_defaults'):
            r.event('rcreset', node)
            self.rc_changed['*'] = True
            return None
        if n.startswith('style.') or n in ('xkcd', 'switch_backend'):
            r.event('rcreset', node)
            self.rc_changed['*'] = True
            return None
        if not self.figs and n not in self.NOFIG:
            r.event('drawother', node, name=n)
        r.event('plot', node, name=n, args=list(a) + sorted(kw.items()))
        if n in ('Axes', 'axes', 'subplot', 'gca'):
            return H('axes', fig=None)
        return T('plt.' + n)

    NOFIG = {'Axes', 'get_fignums', 'get_figlabels', 'isinteractive', 'ion',
             'ioff', 'Line2D', 'fignum_exists', 'get_backend', 'pause',
             'get_cmap', 'Figure', 'Circle', 'Rectangle', 'Normalize'}

    def mpl(self, full, n, a, kw, node):
        if n.startswith('font_manager.'):
            if n.endswith('findfont') and \
                    kw.get('fallback_to_default') is False:
                if self.r.choose(2, 'font'):
                    raise PyExc('ValueError', 'font', node)
            return T(full, *a)
        if n == 'use':
            self.r.event('rcreset', node)
            return None
        if n in ('rcdefaults', 'style.use', 'rc_file_defaults'):
            return self.plt(full, 'rcdefaults', a, kw, node)
        self.r.event('plot', node, name=n, args=list(a) + sorted(kw.items()))
        if n.endswith('Figure'):
            # an object-oriented figure is not registered with pyplot
            return H('axes', fig=None)
        return T(full, *a)

    def savefig(self, a, kw, node):
        p = self.to_path(a[0] if a else kw['fname'])
        r = self.r
        r.may_fail('save figure', node, ['OSError', 'ValueError'], path=p)
        self.written(p, node, 'figure')
        r.event('saved', node, path=p, value=None,
                args=sorted(kw.items()))
        r.fs[p.key] = ('figure', None)
        return None

    def h_fig_savefig(self, h, a, kw, node):
        return self.savefig(a, kw, node)

    def obj_method(self, o, n, a, kw, node):
        if o.kind == 'axes' and n == 'savefig':
            return self.savefig(a, kw, node)
        self.r.event('plot', node, name=n, args=list(a) + sorted(kw.items()))
        if n in ('add_subplot', 'add_axes', 'gca', 'subplots'):
            return H('axes', fig=o)
        return T('m.' + n, typ=None)

    def rc_set(self, k, v, node):
        if isinstance(v, T) and v.op == 'rc' and v.args[0] == k and \
                v.args[1] == 'orig':
            self.rc_changed.pop(k, None)
            return
        self.r.event('rcset', node, name=k, value=v)
        self.rc_changed[k] = True

    def snapshot(self):
        return T('snapshot', 'orig' if not self.rc_changed else 'changed',
                 changed=dict(self.rc_changed))

    def rc_method(self, n, a, kw, node):
        if n == 'copy':
            return self.snapshot()
        if n == 'update':
            v = a[0] if a else None
            if isinstance(v, T) and v.op == 'snapshot':
                self.rc_changed = dict(v.info['changed'])
                return None
            if isinstance(v, D):
                for k, x in v.items():
                    self.rc_set(k, x, node)
                return None
            self.rc_set('*', v, node)
            return None
        if n == 'get':
            return self.getitem(self._rc(), a[0], node)
        if n in ('keys', 'items', 'values'):
            raise Undecided('rcParams.%s' % n)
        raise Undecided('rcParams.%s' % n)

    def _rc(self):
        from .lib import RC
        return RC()

    # ----------------------------------------------------------------- HDF
    def h5(self, full, n, a, kw, node):
        r = self.r
        if n == 'File':
            p = self.to_path(a[0] if a else kw['name'])
            mode = a[1] if len(a) > 1 else kw.get('mode', 'r')
            if mode == 'r':
                if not self.exists('exists', p):
                    r.fail('open HDF', node, 'FileNotFoundError', path=p)
                r.may_fail('open HDF', node, ['OSError'], path=p)
                r.event('read', node, path=p)
            else:
                if mode in ('w-', 'x'):
                    if self.exists('exists', p):
                        raise PyExc('FileExistsError', 'exists', node)
                r.may_fail('open HDF for writing', node, ['OSError'],
                           path=p)
                self.written(p, node, mode)
            c = r.fs.get(p.key)
            if mode in ('w', 'w-', 'x') or mode == 'a' and c is None:
                c = r.fs[p.key] = ('h5', D())
            h = H('h5', path=p, mode=mode, node=node, func=r.env.name,
                  module=r.env.module, prefix='',
                  tree=c[1] if c and c[0] == 'h5' else None)
            h.file = h
            r.handles.append(h)
            return h
        if n in ('Group', 'Dataset'):
            raise Undecided('h5py.%s()' % n)
        if n in ('is_hdf5',):
            return T('ishdf', a[0], typ='bool')
        return NotImplemented

    def norm_key(self, k):
        if isinstance(k, str):
            return k.strip('/')
        if isinstance(k, S):
            ps = list(k.parts)
            if isinstance(ps[0], str):
                ps[0] = ps[0].lstrip('/')
            if isinstance(ps[-1], str):
                ps[-1] = ps[-1].rstrip('/')
            out = []
            for p in ps:
                if isinstance(p, T) and p.op == 'h5name':
                    q = p.args[0]
                    out.append(q)
                else:
                    out.append(p)
            return text(out)
        if isinstance(k, T) and k.op == 'h5name':
            return self.norm_key(k.args[0])
        return k

    def sub_key(self, h, k):
        pre = h.prefix if hasattr(h, 'prefix') else h.ident_key
        k = self.norm_key(k)
        if pre == '':
            return k
        return text([pre, '/', k])

    def full_key(self, h, k):
        if isinstance(k, str) and k.startswith('/'):
            return self.norm_key(k)
        return self.sub_key(h, k)

    def h_h5_create_group(self, h, a, kw, node):
        self.check_open(h, node)
        k = self.full_key(h, a[0])
        return H('group', prefix=k, file=h.file, tree=h.tree)

    h_group_create_group = h_h5_create_group
    h_h5_require_group = h_group_require_group = h_h5_create_group

    def check_open(self, h, node):
        if h.file.closed:
            raise PyExc('ValueError', 'lib', node)

    def h_h5_create_dataset(self, h, a, kw, node):
        self.check_open(h, node)
        k = self.full_key(h, a[0] if a else kw['name'])
        shape = kw.get('shape', a[1] if len(a) > 1 else None)
        dt = kw.get('dtype', a[2] if len(a) > 2 else None)
        data = kw.get('data', a[3] if len(a) > 3 else None)
        self.r.event('dataset', node, path=h.file.path, key=k, shape=shape,
                     dtype=dt, data=data)
        d = data
        if data is not None and dt is not None:
            dn = self.dtype_name(dt)
            if isinstance(data, A):
                d = A('cast', data, dn or '?', nd=data.nd, dims=data.shape,
                      dtype=dn)
            else:
                d = T('cast', data, dn or '?')
        h.file.tree.set(k, d)
        return H('dataset', data=d, ident_key=k, file=h.file, shape_=shape)

    h_group_create_dataset = h_h5_create_dataset
    h_h5_require_dataset = h_group_require_dataset = h_h5_create_dataset

    def h_setitem(self, o, i, v, node):
        if o.kind in ('h5', 'group'):
            self.h_h5_create_dataset(o, [i], {'data': v}, node)
            return
        if o.kind == 'dataset':
            self.r.event('dataset-write', node, index=i, value=v)
            if i is Ellipsis or i == () or isinstance(i, Slice) and \
                    i.lo is None and i.hi is None and i.step is None:
                o.data = v
                o.file.tree.set(o.ident_key, v)
            return
        raise Undecided('store into %s' % o.kind)

    def node(self, h, k):
        """object with key k of a file with unknown contents"""
        kk = key(k)
        f = self.r.facts
        if ('h5type', kk) not in f:
            f[('h5type', kk)] = ('dataset', 'group', 'missing')[
                self.r.choose(3, 'type of ' + repr(k))]
        t = f[('h5type', kk)]
        if t == 'missing':
            return None
        return H('node', ident_key=k, file=h.file, t=t, tree=None, prefix=k)

    def node_is(self, v, n):
        if n == 'h5py.Dataset':
            return v.t == 'dataset'
        if n == 'h5py.Group':
            return v.t == 'group'
        return False

    def h_getitem(self, o, i, node):
        r = self.r
        if o.kind in ('h5', 'group') or o.kind == 'node' and o.t == 'group':
            if o.file.closed:
                raise PyExc('ValueError', 'lib', node)
            if o.file.tree is not None:
                k = self.full_key(o, i)
                if o.file.tree.has(k):
                    return H('dataset', data=o.file.tree.get(k),
                             ident_key=k, file=o.file, shape_=None)
                if self.tree_group(o.file.tree, k):
                    return H('group', prefix=k, file=o.file,
                             tree=o.file.tree)
                raise PyExc('KeyError', 'lookup', node)
            k = self.full_key(o, i) if o.kind != 'h5' else self.norm_key(i)
            if r.facts.get(('haskey', key(k))) is False:
                r.fail('HDF key', node, 'KeyError', key_=k)
            ds = r.opts.get('dataset')
            if ds is not None:
                return H('dataset', data=ds, ident_key=k, file=o.file,
                         shape_=None)
            nd = self.node(o, k)
            if nd is None:
                r.event('lookupfail', node, key=k)
                raise PyExc('KeyError', 'lookup', node)
            return nd
        if o.kind == 'dataset' or o.kind == 'node':
            if o.file.closed:
                raise PyExc('ValueError', 'lib', node)
            if o.kind == 'node':
                nd = self.r.facts.get(('h5ndim', key(o.ident_key)))
                w = A('data', o.ident_key, nd=nd)
                return self.select(w, i, node, True) if nd is not None \
                    else w
            if isinstance(o.data, A):
                return self.select(o.data, i, node, True)
            return T('getitem', o.data, i)
        raise Undecided('subscript of %s' % o.kind)

    def tree_group(self, tree, k):
        for q in tree.keys():
            if isinstance(q, str) and isinstance(k, str):
                if q.startswith(k + '/'):
                    return True
            else:
                ks = S([k, '/']).parts
                qs = S([q]).parts
                if S(qs[:len(ks) - 1]) == S(ks[:-1]) and len(qs) >= len(ks):
                    a, b = qs[len(ks) - 1], ks[-1]
                    if a == b or isinstance(a, str) and isinstance(b, str) \
                            and a.startswith(b):
                        return True
        return False

    def children(self, o, node):
        r = self.r
        if o.file.closed:
            raise PyExc('ValueError', 'lib', node)
        t = o.file.tree
        if t is not None:
            pre = o.prefix
            out = []
            for k, v in t.items():
                rel = self.relative(k, pre)
                if rel is None:
                    continue
                name = rel[0]
                if any(key(name) == key(n) for n, _ in out):
                    continue
                kk = text([pre, '/', name]) if pre != '' else name
                if len(rel) == 1:
                    out.append((name, H('dataset', data=v, ident_key=kk,
                                        file=o.file, shape_=None)))
                else:
                    out.append((name, H('group', prefix=kk, file=o.file,
                                        tree=t)))
            return out
        k = ('children', key(getattr(o, 'prefix', '')))
        if k not in r.facts:
            r.facts[k] = (0, 2)[r.choose(2, k)]
        pre = getattr(o, 'prefix', '')
        out = []
        for i in range(r.facts[k]):
            nm = T('child', pre, i, typ='str')
            kk = text([pre, '/', nm]) if pre != '' else nm
            out.append((nm, kk))
        return [(nm, LazyNode(self, o, kk)) for nm, kk in out]

    def relative(self, k, pre):
        """components of k below pre, None if not below"""
        ps = list(S([k]).parts)
        if pre != '':
            qs = list(S([pre, '/']).parts)
            # compare piecewise
            a = S(ps)
            for n, q in enumerate(qs):
                last = n == len(qs) - 1
                if n >= len(a.parts):
                    return None
                p = a.parts[n]
                if last:
                    if isinstance(p, str) and isinstance(q, str) and \
                            p.startswith(q):
                        ps = [p[len(q):]] + list(a.parts[n + 1:])
                        break
                    return None
                if key(p) != key(q):
                    return None
        comps, cur = [], []
        for p in ps:
            if isinstance(p, str):
                for j, b in enumerate(p.split('/')):
                    if j:
                        comps.append(text(cur))
                        cur = []
                    if b:
                        cur.append(b)
            else:
                cur.append(p)
        comps.append(text(cur))
        comps = [c for c in comps if c != '']
        return comps or None

    def h_h5_keys(self, h, a, kw, node):
        return Iter([k for k, _ in self.children(h, node)])

    def h_h5_items(self, h, a, kw, node):
        return Iter([(k, self.force(v)) for k, v in self.children(h, node)])

    def h_h5_values(self, h, a, kw, node):
        return Iter([self.force(v) for _, v in self.children(h, node)])

    h_group_keys = h_node_keys = h_h5_keys
    h_group_items = h_node_items = h_h5_items
    h_group_values = h_node_values = h_h5_values

    def force(self, v):
        return v

    def h_h5_get(self, h, a, kw, node):
        try:
            return self.h_getitem(h, a[0], node)
        except PyExc as e:
            if e.cls == 'KeyError':
                return a[1] if len(a) > 1 else kw.get('default')
            raise

    h_group_get = h_node_get = h_h5_get

    def h_len(self, h, node):
        if h.kind in ('h5', 'group') or h.kind == 'node' and h.t == 'group':
            return len(self.children(h, node))
        if h.kind == 'dataset' and isinstance(h.data, A) and \
                h.data.nd is not None:
            return h.data.shape[0]
        raise Undecided('len of %s' % h.kind)

    def h_contains(self, c, x, node):
        if c.kind in ('h5', 'group', 'node'):
            if c.file.tree is not None:
                k = self.full_key(c, x)
                return c.file.tree.has(k) or self.tree_group(c.file.tree, k)
            return T('haskey', self.norm_key(x), typ='bool')
        raise Undecided('in %s' % c.kind)

    def h_h5_visit(self, h, a, kw, node):
        for k, o in self.walk_h5(h, node):
            v = self.r.call(a[0], [k], {}, node)
            if v is not None:
                return v
        return None

    def h_h5_visititems(self, h, a, kw, node):
        for k, o in self.walk_h5(h, node):
            o = o if not isinstance(o, LazyNode) else o.get()
            if o is None:
                continue
            v = self.r.call(a[0], [k, o], {}, node)
            if v is not None:
                return v
        return None

    h_group_visit = h_h5_visit
    h_group_visititems = h_h5_visititems

    def walk_h5(self, h, node):
        r = self.r
        if h.file.closed:
            raise PyExc('ValueError', 'lib', node)
        if h.file.tree is not None:
            def rec(g, pre):
                for nm, o in self.children(g, node):
                    k = text([pre, '/', nm]) if pre != '' else nm
                    yield k, o
                    if o.kind == 'group':
                        yield from rec(o, k)
            yield from rec(h, '')
            return
        n = ('visit', getattr(h, 'prefix', ''))
        if n not in r.facts:
            r.facts[n] = (0, 1, 2)[r.choose(3, 'number of keys')]
        for i in range(r.facts[n]):
            k = T('key', i, typ='str')
            yield k, LazyNode(self, h, k)

    def h_attr(self, o, n, node):
        if o.kind in ('node', 'dataset', 'group', 'h5'):
            if n == 'name':
                return T('h5name', getattr(o, 'ident_key',
                                           getattr(o, 'prefix', '')),
                         typ='str') if not isinstance(
                    getattr(o, 'ident_key', getattr(o, 'prefix', '')), str) \
                    else '/' + getattr(o, 'ident_key',
                                       getattr(o, 'prefix', ''))
            if n == 'file':
                return o.file
        if o.kind == 'node' and n in ('shape', 'dtype', 'ndim', 'size'):
            if o.t != 'dataset':
                raise PyExc('AttributeError', 'lib', node)
            if n in ('shape', 'ndim') and self.r.opts.get('h5nd'):
                f, k = self.r.facts, ('h5ndim', key(o.ident_key))
                if k not in f:
                    nds = self.r.opts['h5nd']
                    f[k] = nds[self.r.choose(len(nds), k)]
                if n == 'ndim':
                    return f[k]
                return tuple(T('h5dim', o.ident_key, j, typ='int')
                             for j in range(f[k]))
            return T('h5' + n, o.ident_key)
        if o.kind in ('group', 'h5') and n in ('shape', 'dtype'):
            raise PyExc('AttributeError', 'lib', node)
        if o.kind == 'dataset' and n in ('shape', 'dtype', 'ndim', 'size'):
            if o.data is None:
                return o.shape_ if n == 'shape' else T('dtype', o)
            if isinstance(o.data, T):
                return self.attr(o.data, n, node)
            return T(n, o.data)
        if o.kind == 'h5' and n in ('filename', 'mode'):
            return o.path.as_str() if n == 'filename' else o.mode
        if o.kind == 'image' and n in ('size', 'mode', 'format', 'width',
                                       'height', 'n_frames'):
            return T('imgattr', o.pixels, n)
        if o.kind == 'file' and n in ('name', 'closed'):
            return o.path.as_str() if n == 'name' else o.closed
        if o.kind == 'fig' and n in ('canvas', 'patch', 'number'):
            return H('axes', fig=o)
        return NotImplemented


class LazyNode:
    """object of an HDF file with unknown contents, looked up on demand"""

    def __init__(self, lib, h, k):
        self.lib, self.h, self.k = lib, h, k

    @property
    def key(self):
        return ('lazy', key(self.k))

    def get(self):
        return self.lib.node(self.h, self.k)
