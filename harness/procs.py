"""a stand-in for external programs: records how they are started and plays back output and exit status"""
import contextlib
import os
import subprocess


class Pipe:
    def __init__(self, lines):
        self.lines, self.i = lines, 0

    def readline(self, *a):
        self.i += 1
        if self.i > len(self.lines) + 50:
            raise RuntimeError('reads on forever after the end of the output')
        return self.lines[self.i - 1] if self.i <= len(self.lines) else ''

    def __iter__(self):
        return self

    def __next__(self):
        ln = self.readline()
        if not len(ln):
            raise StopIteration
        return ln

    def read(self, *a):
        t = ''
        for ln in self:
            t = t + ln
        return t

    def readlines(self):
        return list(self)

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


class Host:
    """the machine external programs run on"""

    def __init__(self, lines, rc, cwd='/work', errors=()):
        # errors: positions of the lines the program prints to its error channel
        self.lines, self.rc, self.cwd, self.starts, self.errors = lines, rc, cwd, [], errors

    def start(self, args, **kw):
        h = self

        class Proc:
            def __init__(self):
                self.args = args
                merged = kw.get('stderr') == subprocess.STDOUT
                self.stdout = Pipe([ln for i, ln in enumerate(h.lines) if merged or i not in h.errors]) if kw.get('stdout') == subprocess.PIPE else None
                self.stderr = Pipe([ln for i, ln in enumerate(h.lines) if i in h.errors]) if kw.get('stderr') == subprocess.PIPE else None
                self.stdin = None
                self.pid = 4711
                self._rc = None

            @property
            def returncode(self):
                return self._rc

            def wait(self, timeout=None):
                self._rc = h.rc
                return h.rc

            poll = wait

            def communicate(self, *a, **k):
                self.wait()
                return self.stdout and self.stdout.read(), self.stderr and self.stderr.read()

            def __enter__(self):
                return self

            def __exit__(self, *a):
                self.wait()
                return False

            def kill(self):
                pass
        h.starts.append((list(args), kw, kw.get('cwd') or h.cwd))
        return Proc()

    def chdir(self, p):
        if p == '':
            raise FileNotFoundError(2, 'No such file or directory', p)
        self.cwd = os.path.normpath(os.path.join(self.cwd, p))

    @contextlib.contextmanager
    def installed(self, *mods):
        saved = [(subprocess, 'Popen', subprocess.Popen), (os, 'chdir', os.chdir), (os, 'getcwd', os.getcwd)]
        subprocess.Popen, os.chdir, os.getcwd = self.start, self.chdir, lambda: self.cwd
        for m in mods:
            if hasattr(m, 'Popen'):
                m.Popen = self.start
        try:
            yield self
        finally:
            for o, n, v in saved:
                setattr(o, n, v)
