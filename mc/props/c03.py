"""C03: a program holding only proxies cannot escape its grants.

Closure: starting from the roots of a small world, everything obtainable by
any chain of operations is computed; each new kind of value (what it stands
for and which checker guards it) is expanded by every operation with every
operand.  Every step is executed in a fresh world.  Sequences: all pairs of a
tampering operation and any other on each root.
"""
import datetime
import decimal
import functools
import itertools
import weakref

from mc import lib
from mc import ops

ASSUMPTIONS = [
    'values are identified by what they stand for and their checker when '
    'deciding whether to expand them again',
    'programs use harmless values and what they obtained as operands; they '
    'do not inspect exceptions or bring classes and callbacks of their own',
]

SECRET = 's3cret-value'
PRIVATE = ['_wrapped', '_checker', '__dict__', '__class__', '__reduce__',
           '__reduce_ex__', '__func__', '__self__', '__globals__',
           '__closure__', '__code__', '__mro__', '__subclasses__',
           '__bases__', '__wrapped__', 'mro', '__get__', '__getattribute__',
           '__Security_checker__', '__module__', '__init__', '__new__',
           '__setattr__', '__delattr__', '__slots__', '__doc__',
           '__weakref__', '__call__', '__provides__', '__implemented__',
           '__providedBy__', '__conform__', '__parent__', '__name__',
           '__getstate__', '__copy__', '__deepcopy__', '__builtins__',
           '_ProxyPy__wrapped', '__proxied__', 'object', 'checker',
           'gi_frame', 'f_globals', '__annotations__', '__objclass__',
           '__sizeof__', '__format__', '__dir__', '__init_subclass__',
           '__subclasshook__', '__eq__', '__lt__', '__hash__', '__bool__',
           '__str__', '__repr__', '__length_hint__', '__iter__', '__next__',
           '__len__', '__getitem__', '__contains__', '__add__', '__iadd__',
           '__int__', '__index__', '__neg__', '__rmul__']


class Vault:
    """Nothing grants access to it."""

    def __init__(self):
        self.secret = SECRET

    def __repr__(self):
        return 'Vault'


class Account:
    rate = 5

    def __init__(self, world):
        self.world = world
        self.name = 'account'
        self.secret = SECRET
        self.vault = world['vault']
        self.balance = 0
        self.items_ = [world['part'], 'rock', 5]
        self.table = {'a': world['part'], 'k': 'rock', 1: 2}
        self.bag = {world['part']}
        self.pair = (world['part'], 1)
        self.part = world['part']
        self.compute = lambda *args: args
        self.when = datetime.date(2000, 1, 1)
        self.price = decimal.Decimal(3)
        self.ref = weakref.ref(world['part'])
        self.partial = functools.partial(int)
        self.count = itertools.repeat(world['part'], 3)
        self.me = self

    def __repr__(self):
        return 'Account'

    __str__ = __repr__

    def deposit(self, n=1):
        self.balance += 1
        return self

    def get_secret(self):
        return self.secret

    def set_secret(self, v=None):
        self.secret = v

    def echo(self, *args, **kw):
        return args

    def first(self, x=None):
        return x

    def parts(self):
        yield self.part

    @property
    def prop(self):
        return self.part

    @property
    def secret_prop(self):
        return self.vault

    @classmethod
    def make(cls):
        return [cls]

    @staticmethod
    def static():
        return {'k': Vault}

    def __call__(self, *args):
        return self.part

    def __getitem__(self, k):
        return self.part

    def __len__(self):
        return 2

    def __iter__(self):
        return iter(self.items_)

    def __contains__(self, x):
        return True

    def __add__(self, other):
        return (self, other)

    def __radd__(self, other):
        return [self, other]

    def __iadd__(self, other):
        self.balance += 1
        return self

    def __isub__(self, other):
        return self.part

    def __sub__(self, other):
        return self.vault

    def __imul__(self, other):
        self.secret = 'changed'
        return self.vault

    def __neg__(self):
        return self.part

    def __index__(self):
        self.secret = 'changed'
        return 1

    def __int__(self):
        return 3

    def __eq__(self, other):
        return self is other

    def __lt__(self, other):
        return [self.part]

    def __gt__(self, other):
        return self.part

    def __le__(self, other):
        return self

    def __hash__(self):
        return 1

    def __setitem__(self, k, v):
        self.secret = 'changed'

    def __delitem__(self, k):
        self.secret = 'changed'

    def __enter__(self):
        self.secret = 'changed'

    def __exit__(self, *a):
        self.secret = 'changed'


ACCOUNT_GRANTS = [
    'rate', 'name', 'items_', 'table', 'bag', 'pair', 'part', 'compute',
    'when', 'price', 'ref', 'partial', 'count', 'me', 'deposit', 'echo',
    'first', 'parts', 'prop', 'make', 'static', '__call__', '__getitem__',
    '__len__', '__iter__', '__contains__', '__add__', '__radd__', '__iadd__',
    '__isub__', '__neg__', '__int__', '__str__']


class Part:
    def __init__(self):
        self.size = 3
        self.secret = SECRET

    def __repr__(self):
        return 'Part'

    def grow(self):
        self.size += 1

    def size_of(self):
        return self.size

    def __add__(self, other):
        self.secret = 'changed'
        return SECRET

    def __call__(self):
        return self.secret

    def __getitem__(self, k):
        return self.secret

    def __iter__(self):
        return iter([self.secret])


def _declare():
    from zope.interface import Interface
    from zope.interface import classImplements

    class IPart(Interface):
        pass
    classImplements(Part, IPart)


PART_GRANTS = ['size', 'size_of']


class Closed:
    """Has no protection declared at all."""

    def __init__(self):
        self.secret = SECRET
        self.parts = [1]

    def method(self):
        return SECRET

    def __call__(self, *a):
        return SECRET

    def __repr__(self):
        return 'Closed'

    def __iadd__(self, x):
        self.secret = 'changed'
        return self

    def __len__(self):
        return 12345


CLASSES = (Vault, Account, Part, Closed)


def function(x=None, *args, **kw):
    return [x]


def generator(log):
    """Notes when it is not only asked for the next value."""
    for v in (Closed(), [Closed()], Closed()):
        try:
            if (yield v) is not None:
                log.append('sent')
        except BaseException as e:
            log.append(type(e).__name__)
            raise


ROOTS = ['account', 'part', 'closed', 'list', 'dict', 'tuple', 'set',
         'function', 'method', 'class', 'generator', 'module', 'iterator',
         'decimal', 'builtin', 'values', 'frozenset', 'interface',
         'own']


class World(dict):
    """A fresh world and the proxies of its roots."""

    def __init__(self):
        import types

        from zope.interface import Attribute
        from zope.interface import Interface

        from zope.security import checker as zc
        from zope.security.proxy import Proxy
        self.zc = zc
        self.Proxy = Proxy
        self.held = []          # (proxy, object, checker)
        self['vault'] = Vault()
        self['part'] = Part()
        zc._clear()
        if '__implemented__' not in Part.__dict__:
            _declare()
        self.setup(zc)
        self['account'] = Account(self)
        self['closed'] = Closed()
        self['list'] = [self['part'], 1, [self['closed']]]
        self['dict'] = {'a': self['part'], 'k': [self['closed']]}
        self['tuple'] = (self['part'], (self['closed'],))
        self['set'] = {self['part'], 1}
        self['frozenset'] = frozenset([self['part']])
        self['function'] = function
        self['method'] = self['account'].echo
        self['class'] = Account
        self.genlog = []
        self['generator'] = generator(self.genlog)
        next(self['generator'])
        m = self['module'] = types.ModuleType('mod')
        m.open_ = self['list']
        m.secret = SECRET
        m.cls = Closed
        zc.defineChecker(m, zc.NamesChecker(['open_', 'cls', '__name__']))
        self['iterator'] = iter([self['part'], [self['closed']]])
        self['decimal'] = decimal.Decimal(5)
        self['builtin'] = [self['part']].__iter__
        self['values'] = {1: self['part']}.values()

        class IThing(Interface):
            attr = Attribute('an attribute')

            def meth(a):
                """A method."""
        self['interface'] = IThing
        own = self['own'] = Part()
        own.__Security_checker__ = zc.NamesChecker(
            ['size', 'grow'])
        self.size = len(own.__dict__)

    @staticmethod
    def setup(zc):
        zc.defineChecker(Account, zc.NamesChecker(ACCOUNT_GRANTS))
        zc.defineChecker(Part, zc.NamesChecker(PART_GRANTS))

    def hold(self, v):
        from zope.security.proxy import getChecker
        from zope.security.proxy import getObject
        if type(v) is self.Proxy:
            self.held.append((v, getObject(v), getChecker(v)))
        return v

    def root(self, name):
        p = self.zc.ProxyFactory(self[name])
        return self.hold(p)

    def snapshot(self):
        a = self['account']
        reg = self.zc._checkers
        d = {k: v for k, v in a.__dict__.items()
             if k not in ('balance', 'count', 'world')}
        return (
            {k: id(v) if k not in ('items_', 'table', 'bag') else None
             for k, v in d.items()},
            [id(x) for x in a.items_], a.secret,
            sorted((str(k), id(v)) for k, v in a.table.items()),
            [id(x) for x in a.bag],
            self['vault'].__dict__, dict(self['part'].__dict__),
            self['closed'].secret, list(self['closed'].parts),
            sorted(self['closed'].__dict__),
            [id(x) for x in self['list']],
            len(self['list'][2]),
            sorted((k, id(v)) for k, v in self['dict'].items()),
            len(self['dict']['k']),
            [id(x) for x in self['tuple']], len(self['set']),
            function.__defaults__, sorted(function.__dict__),
            sorted(Account.__dict__), sorted(Part.__dict__),
            sorted(Closed.__dict__), sorted(Vault.__dict__),
            sorted(self['module'].__dict__),
            self['interface'].__bases__, sorted(self['interface'].names()),
            dict(self['own'].__dict__, size=0).keys()
            - {'__Security_checker__'},
            self['own'].__dict__.get('secret'),
            list(self.genlog), len(reg))

    def label(self, v):
        """What a value stands for and who guards it."""
        from zope.security.proxy import getChecker
        from zope.security.proxy import getObject
        if type(v) is not self.Proxy:
            return 'rock:' + self.name(v)
        c = getChecker(v)
        return '%s/%s' % (self.name(getObject(v)), self.checker_name(c))

    def checker_name(self, c):
        gp = getattr(c, 'get_permissions', None)
        return 'checker(%s)' % ','.join(sorted(gp)[:6]) if gp is not None \
            else repr(type(c))

    def name(self, u, depth=0):
        for k, v in self.items():
            if u is v:
                return k
        t = type(u)
        if t in (int, str, float, bool, bytes, type(None)):
            return t.__name__
        if t in (list, tuple) and depth < 3:
            return '%s(%s)' % (t.__name__, ','.join(
                self.name(x, depth + 1) if type(x) is not self.Proxy
                else 'p' for x in u[:3]))
        if t is type:
            return 'class ' + u.__name__
        n = ''
        try:
            n = getattr(u, '__name__', '')
            s = getattr(u, '__self__', None)
            if s is not None and depth < 3:
                n = '%s of %s' % (n, self.name(s, depth + 1)
                                  if type(s) is not self.Proxy else 'p')
        except Exception:
            pass
        return '%s %s' % (t.__name__, n)


def harmless(world, v):
    """Whether it is all right for a program to hold *v* bare."""
    t = type(v)
    if t is world.Proxy or t in ops.ROCKS or v is NotImplemented:
        return True
    if t.__module__ == 'datetime' or t is object:
        return True
    return is_spec(v)


def is_spec(v):
    from zope.interface.declarations import Declaration
    return isinstance(v, Declaration)


# the operations: name, function(value, operand)

def _try(fn, *args):
    return fn(*args)


def operations(world_obj, names):
    out = []
    for n in names:
        out.append(('get', n))
    for n in ('secret', 'name', 'x', '_wrapped', '_checker', '__class__',
              '__dict__', '__Security_checker__', '__bases__', '__call__',
              '__code__', '__defaults__', '__globals__', '__parent__'):
        out.append(('set', n))
        out.append(('del', n))
    for n in names:
        if n not in ('__provides__', '__implemented__', '__providedBy__'):
            out.append(('selfget', n))
    for n in ('_wrapped', '_checker', 'secret', 'name'):
        out.append(('selfset', n))
        out.append(('selfdel', n))
    for args in ((), (0,), ('secret',), ('root',), ('self',), ('self', 'x'),
                 ('a', 'root')):
        out.append(('call', args))
    out.append(('callkw', 'root'))
    for k in (0, -1, 'a', 'k', 'secret', 'slice', 'root'):
        out.append(('getitem', k))
        out.append(('setitem', k))
        out.append(('delitem', k))
    for n, op in PRIM.items():
        if n in ('getattr', 'setattr', 'delattr', 'getattr3', 'call',
                 'call0', 'getitem', 'setitem', 'delitem'):
            continue
        if op.operand:
            for x in ('rock', 'root', 'self', 'closed', 'string', 'zero'):
                out.append(('op', n, x))
        else:
            out.append(('op', n, 'rock'))
    for n in SOME_COMPOSITES:
        out.append(('comp', n))
    return out


PRIM = {op.name: op for op in ops.primitives()}
COMP = {op.name: op for op in ops.composites()}
SOME_COMPOSITES = [
    'matmul', 'rmatmul', 'round', 'trunc', 'reversed', 'format', 'fmt',
    'percent_s', 'percent_d', 'percent_m', 'reduce', 'replace', 'copy',
    'deepcopy', 'vars', 'dict_', 'max', 'min', 'sum', 'repeat2', 'concat',
    'concat2', 'iconcat', 'join', 'fmt_attr', 'fmt_map', 'anext', 'aiter',
    'with_', 'super', 'divmod3', 'attrgetter', 'itemgetter', 'methodcaller',
    'pow3r', 'pow3m', 'type', 'eval']
# results of these are containers or others of the program's own making
OWN_RESULT = {'vars', 'copy', 'deepcopy', 'reversed', 'super', 'type',
              'reduce', 'replace', 'repeat2', 'pickle'}


class Stuck(Exception):
    pass


# a program may call its variables what it likes

def as_self_get(self, name):
    return getattr(self, name)


def as_self_set(self, name, value):
    setattr(self, name, value)


def as_self_del(self, name):
    delattr(self, name)


def apply(world, v, op, root):
    """Carry out one operation of a program."""
    def arg(x):
        return {'root': root, 'self': v, 'rock': 2, 'zero': 0,
                'string': 'secret', 'closed': root,
                'slice': slice(0, 2)}.get(x, x) if isinstance(x, str) else x
    kind = op[0]
    if kind == 'root':
        return world.root(op[1])
    if kind == 'get':
        return getattr(v, op[1])
    if kind == 'selfget':
        return as_self_get(v, op[1])
    if kind == 'selfset':
        return as_self_set(v, op[1], root)
    if kind == 'selfdel':
        return as_self_del(v, op[1])
    if kind == 'set':
        setattr(v, op[1], root)
        return None
    if kind == 'del':
        delattr(v, op[1])
        return None
    if kind == 'call':
        return v(*[arg(x) for x in op[1]])
    if kind == 'callkw':
        return v(x=root)
    if kind == 'getitem':
        return v[arg(op[1])]
    if kind == 'setitem':
        v[arg(op[1])] = root
        return None
    if kind == 'delitem':
        del v[arg(op[1])]
        return None
    if kind == 'op':
        return PRIM[op[1]].fn(v, arg(op[2]))
    if kind == 'comp':
        r = COMP[op[1]].fn(v, 2)
        if op[1] in OWN_RESULT and type(r) is not world.Proxy:
            # a helper's own result: only its being the bare object counts
            from zope.security.proxy import getObject
            if type(v) is world.Proxy and r is not getObject(v):
                return None
        return r
    raise AssertionError(op)


def proxies_intact(world):
    from zope.security.proxy import getChecker
    from zope.security.proxy import getObject
    for p, o, c in world.held:
        if getObject(p) is not o:
            return 'a proxy now stands for %r' % type(getObject(p))
        if getChecker(p) is not c:
            return 'a proxy now has another checker'
    return None


def execute(path, root_name, rec, mode):
    """Run a program in a fresh world; return the world and the last value,
    or None when a step was refused; report leaks and tampering."""
    world = World()
    root = world.root(root_name)
    v = None
    before = world.snapshot()
    for i, op in enumerate(path):
        last = i == len(path) - 1
        was_spec = is_spec(v) and type(v).__name__
        try:
            v = apply(world, v, op, root)
            ok = True
        except Exception as e:
            if type(e) is lib.Stop:
                raise
            ok, v2 = False, None
        rec.step()
        msg = None
        if ok and was_spec:
            # a declaration is taken for harmless with all its parts, but it
            # must not disclose the objects of the program
            if any(v is x for x in CLASSES) or any(v is x for x in world.values()):
                msg = 'bare %s discloses the bare class' % was_spec
            elif not is_spec(v):
                return world, None, False
        elif ok and not harmless(world, v):
            msg = 'obtained a bare %s' % type(v).__name__
        if ok and type(v) is str and SECRET in v:
            msg = 'obtained the secret'
        if ok and type(v) is world.Proxy:
            world.hold(v)
            from zope.security.proxy import getObject
            if getObject(v) is world['vault']:
                msg = 'obtained a proxy of the vault'
        msg = msg or proxies_intact(world)
        if not msg and last and world.snapshot() != before:
            msg = 'changed the world'
        if msg:
            rec.violation('%s by %s' % (msg, path),
                          fingerprint='%s/%s' % (msg, describe(path)))
            return world, None, False
        if not ok:
            if not last and not rec.current.get('sequence'):
                raise Stuck(path)
            v = None
            if not last:
                return world, None, False
    return world, v, ok


def describe(path):
    """The last two steps, which identify a finding."""
    return ' '.join('.'.join(map(str, s)) for s in path[-2:])


def names_for(world, v):
    from zope.security.proxy import getObject
    u = getObject(v) if type(v) is world.Proxy else v
    names = set(PRIVATE)
    try:
        names.update(dir(u))
        names.update(dir(type(u)))
    except Exception:
        pass
    return sorted(names)


def explore_closure(job, rec):
    mode = job['mode']
    seen = set()
    root = job['root']
    queue = [[['root', root]]]
    while queue:
        path = queue.pop(0)
        rec.case(dict(path=path, root=root))
        world, v, ok = execute(path, root, rec, mode)
        if not ok:
            continue
        if type(v) is not world.Proxy and not is_spec(v):
            continue
        lab = world.label(v) + (str(path[-1]) if is_spec(v) else '')
        if lab in seen:
            continue
        seen.add(lab)
        rec.state(lab)
        if len(path) > job['depth'] and not is_spec(v):
            continue
        done = {}
        for op in operations(v, names_for(world, v)):
            if is_spec(v) and op[0] not in ('get', 'getitem', 'call'):
                continue
            p2 = path + [list(op)]
            rec.case(dict(path=p2, root=root))
            w2, r, ok2 = execute(p2, root, rec, mode)
            rec.trace('refused' if not ok2 else 'obtained %s' % (
                'proxy' if type(r) is w2.Proxy else type(r).__name__),
                dict(path=p2))
            if ok2 and (type(r) is w2.Proxy or is_spec(r)):
                lab2 = w2.label(r) + (str(p2[-1]) if is_spec(r) else '')
                if lab2 not in seen and lab2 not in done:
                    done[lab2] = p2
        queue.extend(done.values())
    rec.extra['kinds_of_values'] = len(seen)


def tampering(world, v):
    for op in operations(v, names_for(world, v)):
        if op[0] in ('set', 'del', 'setitem', 'delitem', 'selfset',
                     'selfdel') or (
                op[0] == 'op' and (op[1][0] == 'i' and op[1][1:] in ops.BINARY
                                   or op[1] in ops.BINARY)) or \
                op[0] in ('get', 'selfget') and op[1] in PRIVATE \
                or op[0] == 'call':
            yield op


def explore_sequences(job, rec):
    mode = job['mode']
    root = job['root']
    rec.case(dict(path=[['root', root]], root=root))
    world, v, ok = execute([['root', root]], root, rec, mode)
    first = list(tampering(world, v))
    if job['tier'] == 'quick':
        first = [op for op in first if op[-1] in (
            'rock', '_wrapped', '_checker', '__class__', 'secret', 'root')
            or op[0] == 'call' and len(op[1]) == 1]
    second = operations(v, PRIVATE + ['secret', 'vault', 'items_'])
    if job['tier'] == 'quick':
        second = [op for op in second if op[0] != 'comp' and op[-1] in (
            'rock', '_wrapped', '_checker', '__class__', 'secret', 'root', 0,
            'self', '__dict__', 'vault')]
    for a, b in lib.shard(itertools.product(first, second), job):
        path = [['root', root], list(a), list(b)]
        case = dict(path=path, root=root, sequence=True)
        rec.case(case)
        rec.state(case)
        rec.trace(run_sequence(case, rec, mode), case)


def run_sequence(case, rec, mode):
    """Both operations on the root itself."""
    root = case['root']
    world = World()
    p = world.root(root)
    before = world.snapshot()
    out = []
    for op in case['path'][1:]:
        msg = None
        try:
            v = apply(world, p, op, p)
            out.append('ok')
            if not harmless(world, v):
                msg = 'obtained a bare %s' % type(v).__name__
            elif type(v) is str and SECRET in v:
                msg = 'obtained the secret'
        except Exception as e:
            if type(e) is lib.Stop:
                raise
            out.append('refused')
        rec.step()
        msg = msg or proxies_intact(world)
        if not msg and world.snapshot() != before:
            msg = 'changed the world'
        if msg:
            rec.violation('%s by %s' % (msg, case['path']), fingerprint=(
                '%s/%s' % (msg, describe(case['path']))))
            return 'bad'
    return out


def bounds(tier):
    return ('everything reachable from %d roots in at most %d steps, over '
            'all attribute names, %d operations and 7 operands; all pairs of '
            'a tampering and any operation on each root' % (
                len(ROOTS), 3 if tier == 'quick' else 4, len(PRIM)))


def jobs(tier):
    out = []
    for mode in ('c', 'pure'):
        for r in ROOTS:
            out.append(dict(mode=mode, part='closure', root=r,
                            depth=2 if tier == 'quick' else 3))
        for r in ROOTS:
            out.append(dict(mode=mode, part='sequences', root=r))
    return out


def explore(job, rec):
    if job['part'] == 'closure':
        explore_closure(job, rec)
    else:
        explore_sequences(job, rec)


def replay(case, rec, job):
    if case.get('sequence'):
        run_sequence(case, rec, job['mode'])
    else:
        execute(case['path'], case['root'], rec, job['mode'])
