"""Client of mirsrv: types, instances and bodies of the real compiled crates."""
import subprocess, json, os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.environ.get('VERIF_BUILD', os.path.join(VERIF, 'build'))
NIGHTLY = os.environ.get('VERIF_NIGHTLY', '/root/.rustup/toolchains/nightly-x86_64-unknown-linux-gnu')


class Ty:
    __slots__ = ('id', 'k', 'd', 's', 'mir', '_cls', '_sort', '_flat', 'name', '_extra')

    def __init__(self, mir, id, d):
        self.mir = mir; self.id = id; self.d = d; self.k = d['k']; self.s = d['s']
        self.name = d.get('name', '')
        self._cls = None; self._sort = None; self._flat = None; self._extra = None

    def __repr__(self): return self.s
    @property
    def e(self): return self.mir.ty(self.d['e'])
    @property
    def args(self): return [self.mir.ty(a) if isinstance(a, int) else a for a in self.d['args']]
    @property
    def is_enum(self): return self.k == 'adt' and self.d['adt'] == 'enum'
    @property
    def variants(self): return self.d['vs']
    def fields(self, v=0):
        if self.k == 'tuple': return [(str(i), self.mir.ty(t)) for i, t in enumerate(self.d['f'])]
        if self.k == 'closure':
            u = self.mir.ty(self.d['upvars'])
            return [(str(i), self.mir.ty(t)) for i, t in enumerate(u.d['f'])]
        return [(n, self.mir.ty(t)) for n, t in self.d['vs'][v]['f']]


class Inst:
    __slots__ = ('id', 'd', 'name', 'full', 'kind', 'has_body', 'mir', '_body', 'model', 'crate')
    def __init__(self, mir, id, d):
        self.mir = mir; self.id = id; self.d = d
        self.name = d['name']; self.full = d['full']; self.kind = d['kind']; self.has_body = d['has_body']
        self.crate = d['crate']; self._body = False; self.model = False
    @property
    def args(self): return [self.mir.ty(a) if isinstance(a, int) else a for a in self.d['args']]
    @property
    def body(self):
        if self._body is False: self._body = self.mir.q(f'body {self.id}')
        return self._body
    @property
    def ret(self): return self.mir.ty(self.d['ret']) if self.d.get('ret') is not None else None
    def __repr__(self): return self.full


class Mir:
    def __init__(self):
        args = open(os.path.join(BUILD, 'probe.args')).read().split('\n')[1:-1]
        env = dict(os.environ); env['LD_LIBRARY_PATH'] = NIGHTLY + '/lib'
        self.p = subprocess.Popen([os.path.join(BUILD, 'mirsrv/release/mirsrv')] + args, stdin=subprocess.PIPE,
                                  stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=env, text=True, cwd=os.path.join(VERIF, 'probe'))
        l = self.p.stdout.readline()
        if not l.startswith('READY'): raise RuntimeError('mirsrv did not start: ' + l)
        self.tys = {}; self.insts = {}; self.nq = 0

    def q(self, s):
        self.nq += 1
        self.p.stdin.write(s + '\n'); self.p.stdin.flush()
        return json.loads(self.p.stdout.readline())

    def ty(self, i):
        t = self.tys.get(i)
        if t is None: t = self.tys[i] = Ty(self, i, self.q(f'ty {i}'))
        return t

    def inst(self, i):
        t = self.insts.get(i)
        if t is None: t = self.insts[i] = Inst(self, i, self.q(f'inst {i}'))
        return t

    def find(self, crate, name):
        """instance of a (monomorphic) function in the working-tree crate, by full path"""
        r = [x for x in self.q(f'find {crate} {name.split("::")[-1].split(" ")[-1]} any') if '/ws/' in x[1] and (x[0] == crate + '::' + name or x[0] == name)]
        if len(r) != 1 or r[0][2] is None: raise KeyError(f'{crate}::{name}: {r}')
        return self.inst(r[0][2])

    def adt(self, crate, name):
        r = [x for x in self.q(f'adt {crate} {name.split("::")[-1]}') if x[0] == crate + '::' + name]
        if '/ws/' in ''.join(x[1] for x in r): r = [x for x in r if '/ws/' in x[1]]
        if len(r) != 1: raise KeyError(f'{crate}::{name}: {r}')
        return self.ty(r[0][2])

    def close(self):
        try: self.p.stdin.write('quit\n'); self.p.stdin.flush(); self.p.stdin.close()
        except Exception: pass
        try: self.p.kill()
        except Exception: pass
