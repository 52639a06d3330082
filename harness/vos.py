"""virtual files below /vfs with symbolic modification times, seen through os, os.path, shutil and open"""
import contextlib
import io
import os
import shutil
import types

ROOT = '/vfs'


class VFile:
    """an open file; files that are no text (layouts, databases) read as empty"""

    def __init__(self, v, path, mode='r', *a, **k):
        self.v, self.path, self.mode, self.t, self.pos, self.closed = v, os.fspath(path), mode, '', 0, False
        q = v.path(path)
        if 'x' in mode and q in v.files:
            raise FileExistsError(17, 'File exists', self.path)
        if 'w' in mode or 'x' in mode:
            v.put(self.path, '')
        elif 'a' in mode:
            if q not in v.files:
                v.put(self.path, '')
            self.t = v.get(self.path)[0]
        else:
            t = v.get(self.path)[0]
            self.t = t if isinstance(t, str) or hasattr(t, 'split') else ''

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()
        return False

    def write(self, s):
        if self.closed or not set(self.mode) & set('wax'):
            raise ValueError('I/O operation')
        self.t = self.t + s
        return 0

    def writelines(self, ls):
        for x in ls:
            self.write(x)

    def flush(self):
        if set(self.mode) & set('wax'):
            self.v.put(self.path, self.t)

    def close(self):
        if not self.closed:
            self.flush()
        self.closed = True

    def read(self, n=-1):
        if self.closed or set(self.mode) & set('wax'):
            raise ValueError('I/O operation')
        t = self.t[self.pos:] if n is None or n < 0 else self.t[self.pos:self.pos + n]
        self.pos += len(t)
        return t

    def readline(self):
        rest = self.t[self.pos:]
        k = rest.find('\n')
        return self.read(len(rest) if k < 0 else k + 1)

    def readlines(self):
        return list(self)

    def __iter__(self):
        return self

    def __next__(self):
        ln = self.readline()
        if not len(ln):
            raise StopIteration
        return ln


class VOS:
    def open(self, path, mode='r', *a, **k):
        return VFile(self, path, mode)

    def __init__(self, c, cwd=ROOT + '/work'):
        self.c, self.cwd = c, cwd
        self.files = {}      # path -> (content, mtime)
        self.dirs = {ROOT, cwd}
        self.now = 1.0

    def path(self, p):
        p = os.fspath(p)
        q = os.path.normpath(os.path.join(self.cwd, p))
        return q if q == ROOT or q.startswith(ROOT + '/') else None

    def put(self, p, content, t=None):
        q = self.path(p)
        if os.path.dirname(q) not in self.dirs:
            raise FileNotFoundError(2, 'No such file or directory', p)
        self.files[q] = (content, self.now if t is None else t)

    def get(self, p):
        q = self.path(p)
        if q not in self.files:
            raise FileNotFoundError(2, 'No such file or directory', p)
        return self.files[q]

    def mkdirs(self, p, mode=0o777, exist_ok=False):
        q = self.path(p)
        if q in self.dirs and not exist_ok:
            raise FileExistsError(17, 'File exists', p)
        if q in self.files:
            raise FileExistsError(17, 'File exists', p)
        while q not in self.dirs:
            self.dirs.add(q)
            q = os.path.dirname(q)

    def copy(self, a, b, keep=False, **k):
        content, t = self.get(a)
        if self.path(b) in self.dirs:
            b = os.path.join(b, os.path.basename(a))
        self.put(b, content, t if keep else None)
        return b

    def move(self, a, b, **k):
        b = self.copy(a, b, keep=True)
        del self.files[self.path(a)]
        return b

    order = ()       # names in the order the directory lists them, before any other

    def scandir(self, p='.'):
        vos = self

        class Entry:
            def __init__(self, name):
                self.name, self.path = name, os.path.join(os.fspath(p), name)

            def is_dir(self, **k): return vos.path(self.path) in vos.dirs
            def is_file(self, **k): return vos.path(self.path) in vos.files
            def is_symlink(self): return False
            def __fspath__(self): return self.path
        return contextlib.nullcontext(iter([Entry(n) for n in self.listdir(p)]))

    def listdir(self, p='.'):
        q = self.path(p)
        if q not in self.dirs:
            raise FileNotFoundError(2, 'No such file or directory', p)
        have = {os.path.basename(x) for x in list(self.files) + list(self.dirs) if x != q and os.path.dirname(x) == q}
        return [n for n in self.order if n in have] + sorted(have - set(self.order))

    def rmdir(self, p):
        if self.listdir(p):
            raise OSError(39, 'Directory not empty', p)
        self.dirs.discard(self.path(p))

    def rmtree(self, p, *a, **k):
        q = self.path(p)
        self.listdir(p)
        for x in [x for x in self.files if x.startswith(q + '/')]:
            del self.files[x]
        self.dirs = {x for x in self.dirs if x != q and not x.startswith(q + '/')}

    def remove(self, p, **k):
        self.get(p)
        del self.files[self.path(p)]

    @contextlib.contextmanager
    def installed(self):
        vos, saved = self, []

        def patch(obj, name, fn, how):
            old = getattr(obj, name)
            saved.append((obj, name, old))

            def g(p, *a, **k):
                try:
                    q = vos.path(p)
                except TypeError:
                    q = None
                return old(p, *a, **k) if q is None else fn(p, *a, **k)
            setattr(obj, name, g)
        isf = lambda p: self.path(p) in self.files
        isd = lambda p: self.path(p) in self.dirs

        def stat(p, *a, **k):
            if isd(p):
                return types.SimpleNamespace(st_mode=0o040755, st_mtime=0.0, st_size=0, st_mtime_ns=0)
            t = self.get(p)[1]
            return types.SimpleNamespace(st_mode=0o100644, st_mtime=t, st_ctime=t, st_size=1, st_mtime_ns=t * 10**9)
        for obj, name, fn in (
                (os.path, 'exists', lambda p: isf(p) or isd(p)), (os.path, 'isfile', isf), (os.path, 'isdir', isd),
                (os.path, 'getmtime', lambda p: self.get(p)[1]), (os.path, 'getctime', lambda p: self.get(p)[1]),
                (os.path, 'getsize', lambda p: (self.get(p), 1)[1]),
                (os, 'stat', stat), (os, 'makedirs', self.mkdirs), (os, 'mkdir', self.mkdirs), (os, 'remove', self.remove), (os, 'unlink', self.remove),
                (os, 'lstat', stat), (os, 'listdir', self.listdir), (os, 'scandir', self.scandir), (os, 'rmdir', self.rmdir), (shutil, 'rmtree', self.rmtree), (io, 'open', self.open),
                (os, 'access', lambda p, *a, **k: isf(p) or isd(p)), (os.path, 'lexists', lambda p: isf(p) or isd(p)), (os.path, 'islink', lambda p: False),
                (os, 'rename', self.move), (os, 'replace', self.move), (os, 'utime', self.utime),
                (shutil, 'copy', self.copy), (shutil, 'copyfile', self.copy), (shutil, 'copy2', lambda a, b, **k: self.copy(a, b, True)),
                (shutil, 'move', self.move)):
            patch(obj, name, fn, None)
        saved.append((os, 'getcwd', os.getcwd))
        os.getcwd = lambda: self.cwd
        try:
            yield self
        finally:
            for o, n, v in reversed(saved):
                setattr(o, n, v)

    def utime(self, p, times=None, **k):
        content, _ = self.get(p)
        self.files[self.path(p)] = (content, self.now if times is None else times[1])
