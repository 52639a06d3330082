"""Builds the environment in which /repo's code is loaded: symbolic or real."""
import hashlib
import importlib
import os
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('KPEX_VERIF_REPO', '/repo')
BUILD = os.environ.get('KPEX_VERIF_BUILD') or os.path.join(VERIF, 'build')
SITE = '/opt/venv/lib/python3.12/site-packages'


def gen_pb():
    """python modules generated by protoc from /repo's current .proto files"""
    protos = []
    for d, _, fs in os.walk(os.path.join(REPO, 'protos')):
        protos += [os.path.join(d, f) for f in fs if f.endswith('.proto')]
    protos.sort()
    h = hashlib.sha256()
    for p in protos:
        h.update(p.encode())
        h.update(open(p, 'rb').read())
    out = os.path.join(BUILD, 'pb-' + h.hexdigest()[:16])
    if not os.path.exists(os.path.join(out, '.done')):
        os.makedirs(BUILD, exist_ok=True)
        tmp = tempfile.mkdtemp(dir=BUILD)
        subprocess.run(['protoc', '-I' + os.path.join(REPO, 'protos'), '--python_out=' + tmp] + protos, check=True)
        open(os.path.join(tmp, '.done'), 'w').close()
        try:
            os.rename(tmp, out)
        except OSError:
            subprocess.run(['rm', '-rf', tmp])
    return out


def _paths():
    sys.dont_write_bytecode = True
    if SITE not in sys.path:
        sys.path.append(SITE)
    sys.path[:] = [p for p in sys.path if not p.rstrip('/').endswith('/repo') or p == REPO]
    pb = gen_pb()
    sys.path.insert(0, pb)
    sys.path.insert(1, REPO)
    import klayout_pex_protobuf
    klayout_pex_protobuf.__path__.insert(0, pb)
    return pb


def pb_modules(pb):
    out = []
    for d, _, fs in os.walk(os.path.join(pb, 'kpex')):
        for f in fs:
            if f.endswith('_pb2.py'):
                rel = os.path.relpath(os.path.join(d, f), pb)[:-3].replace('/', '.')
                out.append(rel)
    return sorted(out)


class RealWorld:
    symbolic = False

    def __init__(self):
        self.pb = _paths()
        import klayout.db
        self.kdb = klayout.db
        _quiet()

    def module(self, name):
        return importlib.import_module(name)


def _quiet():
    """log records are not rendered (rendering is not part of any property)"""
    import logging
    logging.disable(logging.CRITICAL)
    import rich.console
    rich.console.Console.rule = lambda *a, **k: None
    rich.console.Console.print = lambda *a, **k: None


class SymWorld:
    symbolic = True

    def __init__(self, overrides=None):
        self.pb = _paths()
        _quiet()
        import klayout.db, klayout.rdb, klayout.lay, klayout.pex, klayout.dbcore
        from . import instrument, stdlib, pb as pbm, skdb
        w = instrument.World()
        w.modules = stdlib.default_modules()
        w.install(repo=REPO)
        self.w = w
        self.kdb = skdb.make_module(klayout.db)
        self.rdb = skdb.make_rdb(klayout.rdb)
        self.real_kdb = klayout.db
        klayout.db = self.kdb
        klayout.rdb = self.rdb
        dbcore = skdb.make_module(klayout.dbcore)
        klayout.dbcore = dbcore
        sys.modules['klayout.db'] = self.kdb
        sys.modules['klayout.rdb'] = self.rdb
        sys.modules['klayout.dbcore'] = dbcore
        pexm = skdb.make_pex(klayout.pex)
        klayout.pex = pexm
        sys.modules['klayout.pex'] = pexm
        self.pex = pexm
        for rel in pb_modules(self.pb):
            real = importlib.import_module(rel)
            st = pbm.stand_in(real)
            full = 'klayout_pex_protobuf.' + rel
            sys.modules[full] = st
            parent = importlib.import_module(full.rpartition('.')[0])
            setattr(parent, full.rpartition('.')[2], st)
        jf = pbm.JsonFormat()
        import google.protobuf
        import google.protobuf.json_format
        w.modules['google.protobuf.json_format'] = jf
        g = stdlib.Passthru(__import__('google'))
        g.protobuf = stdlib.Passthru(google.protobuf)
        g.protobuf.json_format = jf
        w.modules['google'] = g
        w.modules['google.protobuf'] = g.protobuf

    def module(self, name):
        m = importlib.import_module(name)
        return m
