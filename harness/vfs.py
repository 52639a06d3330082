"""an in-memory file system for code that uses open(), also by way of pathlib; works with symbolic and concrete text"""
import io
import os
import pathlib
import sys

ACTIVE = []      # the latest file system


def _of_code(depth=2):
    """called from the code under test, if need be through pathlib"""
    f = sys._getframe(depth)
    while f is not None and f.f_code.co_filename.endswith('pathlib.py'):
        f = f.f_back
    return f is not None and str(f.f_globals.get('__name__', '')).startswith('klayout_pex')


def _io_open(path, mode='r', *a, **k):
    if ACTIVE and not isinstance(path, int) and _of_code():
        return ACTIVE[-1].open(os.fspath(path), mode, *a, **k)
    return _real_open(path, mode, *a, **k)


def _write_text(self, data, *a, **k):
    if ACTIVE and _of_code():
        with ACTIVE[-1].open(os.fspath(self), 'w') as f:
            f.write(data)
        return 0
    return _real_write(self, data, *a, **k)


_real_open, _real_write = io.open, pathlib.Path.write_text
if not getattr(io.open, '_kpex', False):
    io.open = _io_open
    pathlib.Path.write_text = _write_text
    _io_open._kpex = True


class File:
    def __init__(self, fs, path, mode):
        self.fs, self.path, self.mode = fs, path, mode
        self.closed = False
        if 'w' in mode:
            fs.files[path] = ''
        elif 'a' in mode:
            fs.files.setdefault(path, '')
        elif path not in fs.files:
            raise FileNotFoundError(2, 'No such file or directory', path)
        self.left, self.pos = None, 0

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()
        return False

    def close(self):
        self.closed = True

    def fileno(self):
        return 99

    def flush(self):
        pass

    def write(self, s):
        if self.closed or 'r' in self.mode:
            raise ValueError('I/O operation')
        self.fs.files[self.path] = self.fs.files[self.path] + self.fs.dec(s)
        return 0

    def writelines(self, ls):
        for x in ls:
            self.write(x)

    def _text(self):
        if self.closed or 'r' not in self.mode:
            raise ValueError('I/O operation')
        return self.fs.files[self.path]

    def _rest(self):
        """the pieces of the text"""
        if self.left is None:
            t = self._text()
            self.left = t if isinstance(t, str) else list(iter(t))
        return self.left

    def _take(self, end):
        t, a = self._rest(), self.pos
        self.pos = end
        return t[a:end] if isinstance(t, str) else sum_text(t[a:end])

    def read(self, n=-1):
        self._text()
        total = len(self._rest())
        return self._take(min(total, self.pos + n) if n is not None and n >= 0 else total)

    def readline(self):
        self._text()
        t = self._rest()
        for k in range(self.pos, len(t)):
            if t[k] == '\n':
                return self._take(k + 1)
        return self._take(len(t))

    @staticmethod
    def _empty(s):
        return isinstance(s, str) and s == ''

    def readlines(self):
        out = []
        while True:
            ln = self.readline()
            if self._empty(ln):
                return out
            out.append(ln)

    def seek(self, pos, whence=0):
        if pos or whence:
            raise NotImplementedError('seek')
        self.left, self.pos = None, 0
        return 0

    def __iter__(self):
        return self

    def __next__(self):
        ln = self.readline()
        if self._empty(ln):
            raise StopIteration
        return ln


def sum_text(parts):
    from symx.strings import sjoin
    return sjoin('', parts)


class FS:
    def __init__(self, c, files=None):
        self.c = c
        self.files = dict(files or {})
        if c.sym:
            from symx.containers import SymDict
            self.files = SymDict(files or {})
        self.dec = c.text
        ACTIVE[:] = [self]

    def open(self, path, mode='r', *a, **k):
        if isinstance(path, pathlib.PurePath):
            path = str(path)
        return File(self, path, mode)

    def lines(self, path):
        parts = self.files[path].split('\n')
        return parts[:-1] if not len(parts[-1]) else parts
