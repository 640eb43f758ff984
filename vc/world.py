"""Loading the real source of /repo/modbus_tk into fresh module objects, instrumented or as it is."""
import os, sys, types, builtins, collections, functools, struct, threading, logging, socket, select, time, queue, socketserver
from . import core, shims, transform, loops
from .core import Unsupported

REPO = os.environ.get('VERIF_REPO', '/repo')
PKG = 'modbus_tk'
_cache = {}


def source_path(modname):
    if modname == PKG:
        return os.path.join(REPO, PKG, '__init__.py')
    return os.path.join(REPO, *modname.split('.')) + '.py'


def code_of(modname, instrumented):
    key = (modname, instrumented)
    if key not in _cache:
        p = source_path(modname)
        with open(p, encoding='utf-8') as f:
            src = f.read()
        short = modname.split('.')[-1]
        if instrumented:
            _cache[key] = transform.transform(src, short, p)
        else:
            _cache[key] = compile(src, p, 'exec')
    return _cache[key]


class FakeSerialModule(types.ModuleType):
    def __init__(self):
        types.ModuleType.__init__(self, 'serial')

        class SerialException(IOError):
            pass

        class Serial(object):
            def __init__(self, *a, **k):
                raise SerialException('no serial port')
        self.SerialException = SerialException
        self.Serial = Serial


class World(object):
    """one fresh instance of the package; `stubs`: module name -> stand-in; `patches`: {'utils.calculate_crc': obj}"""

    def __init__(self, rt=None, stubs=None, patches=None):
        self.rt = rt                    # Runtime when instrumented, None for the code as it is
        self.modules = {}
        self.patches = dict(patches or {})
        self.locks = []
        self.sleeps = []
        self.threads = []
        st = {
            'threading': shims.Mod(threading, RLock=lambda: self._lock('RLock'), Lock=lambda: self._lock('Lock'),
                                   Event=shims.GhostEvent, Thread=shims.GhostThread),
            'logging': shims.Mod(logging, getLogger=lambda *a: shims.DummyLogger()),
            'time': shims.FakeTime(),
            'serial': FakeSerialModule(),
            'socket': shims.Mod(socket, socket=_nosock),
            'select': shims.Mod(select, select=_noselect),
            'queue': queue,
            'socketserver': socketserver,
        }
        if rt is not None:
            st['struct'] = shims.StructShim()
            st['collections'] = shims.Mod(collections, OrderedDict=shims.OrderedDict, defaultdict=shims.defaultdict)
            st['functools'] = shims.Mod(functools, reduce=shims.vreduce)
            rt.world = self
        st.update(stubs or {})
        self.stubs = st
        self._classes = None
        b = shims.builtin_table() if rt is not None else dict(vars(builtins))
        b['__import__'] = self._import
        if rt is None:
            b['print'] = lambda *a, **k: None
        self.builtins = b

    def _lock(self, kind):
        l = shims.GhostLock(kind)
        self.locks.append(l)
        return l

    # ---- import machinery
    def load(self, name):
        if not name.startswith(PKG):
            name = PKG + '.' + name
        m = self.modules.get(name)
        if m is not None:
            return m
        if name != PKG:
            self.load(PKG)
        if not os.path.exists(source_path(name)):
            raise ModuleNotFoundError("No module named %r" % name)
        m = types.ModuleType(name)
        m.__file__ = source_path(name)
        m.__package__ = PKG
        if name == PKG:
            m.__path__ = [os.path.join(REPO, PKG)]
        self.modules[name] = m
        d = m.__dict__
        d['__builtins__'] = self.builtins
        if self.rt is not None:
            d['__vc__'] = self.rt
        try:
            exec(code_of(name, self.rt is not None), d)
        except BaseException:
            self.modules.pop(name, None)
            raise
        short = name.split('.')[-1]
        for k, v in self.patches.items():
            mod, attr = k.split('.', 1)
            if mod == short and attr in d:
                d[attr] = v(d[attr]) if getattr(v, '_wants_original', False) else v
        if name != PKG:
            setattr(self.modules[PKG], short, m)
        self._classes = None
        return m

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            base = PKG
            name = base + ('.' + name if name else '')
        if name == PKG or name.startswith(PKG + '.'):
            m = self.load(name)
            if fromlist:
                for f in fromlist:
                    if not hasattr(m, f) and name == PKG and os.path.exists(source_path(PKG + '.' + f)):
                        self.load(PKG + '.' + f)
                return m
            return self.load(PKG)
        top = name.split('.')[0]
        if top in self.stubs:
            if self.stubs[top] is None:
                raise ModuleNotFoundError("No module named %r" % name)
            return self.stubs[top]
        return builtins.__import__(name, globals, locals, fromlist, level)

    def __getattr__(self, k):
        if k.startswith('_'):
            raise AttributeError(k)
        return self.load(k)

    # ---- what loops may change
    def globals_of(self):
        for n, m in sorted(self.modules.items()):
            yield n, m.__dict__

    def classes(self):
        if self._classes is None:
            out = []
            for n, m in sorted(self.modules.items()):
                for k in sorted(m.__dict__):
                    v = m.__dict__[k]
                    if isinstance(v, type) and str(getattr(v, '__module__', '')).startswith(PKG) and v not in out:
                        out.append(v)
            self._classes = out
        return self._classes


def _nosock(*a, **k):
    raise Unsupported('real sockets are not available to the code under verification')


def _noselect(*a, **k):
    raise Unsupported('real select is not available to the code under verification')
