"""C04: name-based checkers decide exactly as declared.

The whole table: name class x declared value for reading x declared value for
writing x answer of the policy x entry point, against the decision computed
from the property's text; then every history up to the bound of checks,
changed answers, changed declarations and changed interactions on one checker.
"""
import itertools

from mc import lib

ASSUMPTIONS = [
    'names are strings',
]

ALWAYS = ['__lt__', '__le__', '__eq__', '__gt__', '__ge__', '__ne__',
          '__hash__', '__bool__', '__class__', '__providedBy__',
          '__implements__', '__repr__', '__conform__', '__name__',
          '__parent__']
OTHERS = ['a', 'b', '', 'name', '_a', '__a', '__call__', '__len__',
          '__getitem__', '__next__', '__str__', '__dict__', '__reduce__',
          '__module__', '__doc__', '__init__', '__contains__', '__setitem__',
          '__nonzero__', '__cmp__', '__coerce__', '__iter', '_iter__',
          'iter', 'class', '__Class__', ' __class__', '__class__ ',
          '__provides__', '__implemented__', '__hash', '__parent',
          '__add__', '__getattr__', '__setattr__', '__index__', '__int__',
          'CheckerPublic', 'zope.Public', 'None', '0', 'caf\xe9', '\u0130',
          'a b', 'a\x00b', '\U0001f600', '__length_hint__', '__int',
          '__bytes__', '__format__', '__sizeof__', '__dir__', '__slots__']
NAMES = ALWAYS + ['__iter__'] + OTHERS
DECLARED = ['absent', 'none', 'public', 'perm', 'object', 'empty', 'look',
            'zope.Public', 'public global']
SETDECL = ['nomap', 'emptymap', 'absent', 'none', 'public', 'perm', 'object',
           'empty', 'look', 'zope.Public', 'public global']
ANSWERS = ['true', 'false', 'one', 'zero', 'nonestr', 'none', 'list',
           'boom', 'unauthorized', 'forbidden', 'attrerror', 'keyerror',
           'badbool', 'nointeraction', 'noneinteraction']


class Boom(Exception):
    pass


class Obj:
    def __getattr__(self, name):
        if name[:2] == '__':
            raise AttributeError(name)
        return 1

    def __setattr__(self, name, value):
        pass


class IterObj(Obj):
    def __iter__(self):
        return iter(())


class InstIter(Obj):
    """__iter__ only on the instance."""

    def __getattribute__(self, name):
        if name == '__iter__':
            return lambda: iter(())
        return object.__getattribute__(self, name)


class BadIter(Obj):
    """Looking for __iter__ fails, so nobody knows."""

    def __getattribute__(self, name):
        if name == '__iter__':
            raise Boom('iter')
        return object.__getattribute__(self, name)


class IndexObj(Obj):
    """Iterated over by indexing."""

    def __getitem__(self, i):
        raise IndexError(i)


class DerivedIndex(IndexObj):
    pass


class IterIndex(IterObj, IndexObj):
    pass


class BadIndex(Obj):
    """Looking for __getitem__ fails."""

    def __getattribute__(self, name):
        if name == '__getitem__':
            raise Boom('getitem')
        return object.__getattribute__(self, name)


class BadBool:
    def __bool__(self):
        raise Boom('bool')


class EqualToAll:
    def __eq__(self, other):
        return True

    __hash__ = object.__hash__

    def __repr__(self):
        return 'look'


class Interaction:
    def __init__(self, answer, log):
        self.answer = answer
        self.log = log

    def checkPermission(self, permission, obj):
        self.log.append((permission, obj))
        a = self.answer
        if isinstance(a, Exception):
            raise a
        return a


class Model:
    """Decides like the property says."""

    def __init__(self, zc):
        from zope.security.interfaces import ForbiddenAttribute
        from zope.security.interfaces import Unauthorized
        self.Unauthorized = Unauthorized
        self.Forbidden = ForbiddenAttribute
        self.public = zc.CheckerPublic
        self.look = EqualToAll()
        self.obj_perm = object()
        from zope.security.proxy import getObject
        self.values = {
            'none': None, 'public': zc.CheckerPublic, 'perm': 'a permission',
            'object': self.obj_perm, 'empty': '', 'look': self.look,
            'zope.Public': 'zope.Public',
            'public global': getObject(zc.CheckerPublic)}
        self.answers = {
            'true': True, 'false': False, 'one': 1, 'zero': 0,
            'nonestr': 'no', 'none': None, 'list': [],
            'boom': Boom('policy'), 'badbool': BadBool(),
            'unauthorized': Unauthorized('from the policy'),
            'forbidden': ForbiddenAttribute('from', 'policy'),
            'attrerror': AttributeError('policy'),
            'keyerror': KeyError('policy')}

    def decide(self, table, how, name, obj, answer):
        """(outcome, consulted permissions)"""
        if name in table and table[name] is not None:
            perm = table[name]
            if perm is self.public:
                return ('ok',), []
            if answer in ('nointeraction', 'noneinteraction'):
                return ('exc', AttributeError), []
            a = self.answers[answer]
            if isinstance(a, Exception):
                return ('raised', a), [perm]
            if answer == 'badbool':
                return ('exc', Boom), [perm]
            if a:
                return ('ok',), [perm]
            return ('unauthorized', name, perm), [perm]
        if how == 'get':
            if name in ALWAYS:
                return ('ok',), []
            if name == '__iter__' and type(obj) in (BadIter, BadIndex):
                return ('not ok',), []
            if name == '__iter__' and isinstance(obj, IndexObj) \
                    and not isinstance(obj, IterObj):
                want = self.decide(table, how, '__getitem__', obj, answer)
                if want[0][0] == 'forbidden':
                    want = ('forbidden', ITERATION), []
                return want
            if name == '__iter__' and not isinstance(obj,
                                                     (IterObj, InstIter)):
                return ('ok',), []
        return ('forbidden', name), []

    def observe(self, fn, obj, log):
        del log[:]
        try:
            r = fn()
        except self.Unauthorized as e:
            if e in self.answers.values():
                got = 'raised', e
            elif type(e) is self.Unauthorized and e.args[0] is obj \
                    and len(e.args) == 3:
                got = 'unauthorized', e.args[1], e.args[2]
            else:
                got = 'odd', e.args
        except self.Forbidden as e:
            if e in self.answers.values():
                got = 'raised', e
            elif type(e) is self.Forbidden and len(e.args) == 2 \
                    and e.args[1] is obj:
                got = 'forbidden', e.args[0]
            else:
                got = 'odd', e.args
        except Exception as e:
            if type(e) is lib.Stop:
                raise
            if any(e is a for a in self.answers.values()):
                got = 'raised', e
            else:
                got = 'exc', type(e)
        else:
            got = ('ok',)
            if r is not None:
                got = 'odd', r
        for perm, o in log:
            if o is not obj:
                return ('odd', 'the policy was asked about', o), []
        return got, [p for p, o in log]


ITERATION = '__iter__ or __getitem__'


def same(a, b):
    if a == ('not ok',):
        return b != ('ok',)
    if a == ('forbidden', ITERATION):
        return len(b) == 2 and b[0] == 'forbidden' \
            and b[1] in ('__iter__', '__getitem__')
    return len(a) == len(b) and all(
        x is y or type(x) is type(y) is str and x == y
        or type(x) is type(y) is int and x == y for x, y in zip(a, b))


def tables(model, gdecl, sdecl, name):
    get = {'unrelated': model.public}
    if gdecl != 'absent':
        get[name] = model.values[gdecl]
    if sdecl == 'nomap':
        return get, None
    if sdecl == 'emptymap':
        return get, {}
    set_ = {'unrelated': model.public}
    if sdecl != 'absent':
        set_[name] = model.values[sdecl]
    return get, set_


def set_interaction(answer, model, log):
    from zope.security._definitions import thread_local
    try:
        del thread_local.interaction
    except AttributeError:
        pass
    if answer == 'noneinteraction':
        thread_local.interaction = None
    elif answer != 'nointeraction':
        thread_local.interaction = Interaction(model.answers[answer], log)


def make(zc, kind, get, set_):
    if kind == 'checker':
        return zc.Checker(get) if set_ is None else zc.Checker(get, set_)
    if kind == 'subclass':
        class Sub(zc.Checker):
            pass
        return Sub(get) if set_ is None else Sub(get, set_)
    if kind == 'python':
        return zc.CheckerPy(get, set_)
    raise AssertionError(kind)


def table_cases(job):
    for kind in ('checker', 'subclass', 'python'):
        for n in NAMES:
            for g in DECLARED:
                for s in SETDECL:
                    if kind != 'checker' and s not in ('nomap', 'perm',
                                                       'public'):
                        continue
                    for a in ANSWERS:
                        if g not in ('perm', 'object', 'empty', 'look',
                                     'zope.Public', 'public global') and \
                                s in ('nomap', 'emptymap', 'absent', 'none',
                                          'public') and \
                                a not in ('true', 'false', 'nointeraction'):
                            continue
                        yield dict(part='table', kind=kind, name=n, get=g,
                                   set=s, answer=a)


OBJECTS = {'plain': Obj, 'iter': IterObj, 'inst': InstIter,
           'bad': BadIter, 'index': IndexObj, 'derived': DerivedIndex,
           'iter and index': IterIndex, 'bad index': BadIndex}


def entries(zc, checker, obj, name):
    """name -> (how, function)"""
    out = {
        'check': ('get', lambda: checker.check(obj, name)),
        'check_getattr': ('get', lambda: checker.check_getattr(obj, name)),
        'check_setattr': ('set', lambda: checker.check_setattr(obj, name)),
    }
    if hasattr(type(checker), '__setitem__'):
        def setitem():
            checker[obj] = name
        out['setitem'] = 'get', setitem
    return out


def run_table(case, rec, mode, zc, model):
    name = case['name']
    get, set_ = tables(model, case['get'], case['set'], name)
    if ANSWERS.index(case['answer']) % 2:
        # the same name as another object
        name = ''.join(list(name))
    log = []
    checker = make(zc, case['kind'], get, set_)
    set_interaction(case['answer'], model, log)
    want_get = get.get(name)
    want_set = (set_ or {}).get(name)
    if checker.permission_id(name) is not want_get:
        return bad(rec, mode, 'permission_id %r' % (
            checker.permission_id(name),))
    if checker.setattr_permission_id(name) is not want_set:
        return bad(rec, mode, 'setattr_permission_id %r' % (
            checker.setattr_permission_id(name),))
    outcomes = []
    for oname, cls in OBJECTS.items():
        if oname != 'plain' and name != '__iter__':
            continue
        obj = cls()
        for ename, (how, fn) in entries(zc, checker, obj, name).items():
            table = get if how == 'get' else (set_ or {})
            want = model.decide(table, how, name, obj, case['answer'])
            for again in (0, 1):
                got = model.observe(fn, obj, log)
                rec.step()
                if not same(want[0], got[0]) or not same(want[1], got[1]):
                    return bad(rec, mode, '%s of %r on %s: %r, expected %r' % (
                        ename, name, oname, got, want))
            outcomes.append(want[0][0])
        if log_proxy(case, rec, mode, zc, model, checker, obj, get, set_, log):
            return 'bad'
    return ' '.join(sorted(set(outcomes)))


def log_proxy(case, rec, mode, zc, model, checker, obj, get, set_, log):
    """The same through a proxy."""
    from zope.security.proxy import Proxy
    name = case['name']
    if name[:2] == '__' or '\x00' in name:
        return False                 # C01 covers the special methods
    p = Proxy(obj, checker)
    for how, table, fn in [
            ('get', get, lambda: getattr(p, name) and None),
            ('set', set_ or {}, lambda: setattr(p, name, 1)),
            ('set', set_ or {}, lambda: delattr(p, name))]:
        want = model.decide(table, how, name, obj, case['answer'])
        got = model.observe(fn, obj, log)
        rec.step()
        if want[0] == ('ok',):
            if got[0][0] not in ('ok', 'exc'):
                bad(rec, mode, 'proxied %s of %r: %r, expected %r' % (
                    how, name, got, want))
                return True
            continue
        if 'pure' in mode and how == 'get' \
                and want[0][0] in ('exc', 'raised') \
                and got[0] == want[0]:
            continue            # checked again after AttributeError
        if not same(want[0], got[0]) or not same(want[1], got[1]):
            bad(rec, mode, 'proxied %s of %r: %r, expected %r' % (
                how, name, got, want))
            return True
    return False


def bad(rec, mode, msg):
    rec.violation(msg, fingerprint='%s/%s' % (mode, msg.split(':')[0]))
    return 'bad'


# iteration by indexing

def indexed_cases(job):
    for kind in ('checker', 'subclass', 'python'):
        for i in DECLARED:
            for g in DECLARED:
                for s in ('nomap', 'public', 'perm'):
                    for a in ANSWERS:
                        yield dict(part='indexed', kind=kind, iter=i, item=g,
                                   set=s, answer=a)


def run_indexed(case, rec, mode, zc, model):
    get, set_ = tables(model, case['item'], case['set'], '__getitem__')
    if case['iter'] != 'absent':
        get['__iter__'] = model.values[case['iter']]
    log = []
    checker = make(zc, case['kind'], get, set_)
    set_interaction(case['answer'], model, log)
    outcomes = set()
    for oname, cls in OBJECTS.items():
        obj = cls()
        for ename, (how, fn) in entries(zc, checker, obj, '__iter__').items():
            want = model.decide(get if how == 'get' else set_ or {}, how,
                                '__iter__', obj, case['answer'])
            for again in (0, 1):
                got = model.observe(fn, obj, log)
                rec.step()
                if not same(want[0], got[0]) or not same(want[1], got[1]):
                    return bad(rec, mode,
                               '%s of __iter__ on %s: %r, expected %r' % (
                                   ename, oname, got, want))
            outcomes.add(want[0][0])
    return 'indexed ' + ' '.join(sorted(outcomes))


# histories

ACTIONS = (
    [('check', how, n) for how in ('get', 'set')
     for n in ('a', 'b', '__class__', '__iter__')]
    + [('answer', a) for a in ('true', 'false', 'boom', 'nointeraction')]
    + [('declare', t, n, v) for t in ('get', 'set') for n in ('a', '__iter__')
       for v in ('perm', 'object', 'public', 'none', 'absent')]
    + [('other', 'check'), ('object',)])


def histories(job):
    depth = job['depth']
    checks = [a for a in ACTIONS if a[0] == 'check']
    for start in ('perm', 'public', 'absent'):
        for n in range(2, depth + 1):
            for h in itertools.product(ACTIONS, repeat=n - 1):
                # the last one has to look
                for last in checks:
                    yield dict(part='history', start=start,
                               history=list(h) + [last])


def run_history(case, rec, mode, zc, model):
    get, set_ = {}, {'z': 'zz'}
    if case['start'] != 'absent':
        get['a'] = set_['a'] = model.values[case['start']]
        get['b'] = 'perm of b'
    checker = zc.Checker(get, set_)
    other = zc.Checker({'a': 'other perm'}, {'a': 'other perm'})
    log = []
    answer = 'true'
    set_interaction(answer, model, log)
    objs = [Obj(), IterObj()]
    obj = objs[0]
    out = []
    for action in case['history']:
        action = list(action)
        if action[0] == 'check':
            _, how, name = action
            table = get if how == 'get' else set_
            want = model.decide(table, how, name, obj, answer)
            if how == 'get':
                def fn():
                    return checker.check_getattr(obj, name)
            else:
                def fn():
                    return checker.check_setattr(obj, name)
            got = model.observe(fn, obj, log)
            rec.step()
            if not same(want[0], got[0]) or not same(want[1], got[1]):
                return bad(rec, mode, 'history %s of %r: %r, expected %r' % (
                    how, name, got, want))
            out.append(want[0][0])
        elif action[0] == 'answer':
            answer = action[1]
            set_interaction(answer, model, log)
        elif action[0] == 'declare':
            _, t, n, v = action
            table = get if t == 'get' else set_
            if v == 'absent':
                table.pop(n, None)
            else:
                table[n] = model.values[v]
        elif action[0] == 'object':
            obj = objs[1 - objs.index(obj)]
        elif action[0] == 'other':
            want = model.decide({'a': 'other perm'}, 'get', 'a', obj, answer)
            got = model.observe(lambda: other.check(obj, 'a'), obj, log)
            rec.step()
            if not same(want[0], got[0]):
                return bad(rec, mode, 'other checker: %r' % (got,))
    return ' '.join(out)


SIZES = [1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 128,
         129, 256, 257]


def run_size(case, rec, mode, zc, model):
    """Many names, permissions and objects, asked one after another and again,
    when the policy has changed its mind about one of them."""
    from zope.security._definitions import thread_local
    from zope.security.interfaces import ForbiddenAttribute
    from zope.security.interfaces import Unauthorized
    size, k = case['size'], case['k']
    names = ['n%d' % i for i in range(size)]
    objs = [Obj() for i in range(size)]
    perms = {n: 'perm.%s' % n for n in names}
    sets = {n: 'set.%s' % n for n in names[::2]}
    c = zc.Checker(dict(perms), sets)
    refused = set()
    asked = []

    class Interaction:
        def checkPermission(self, permission, obj):
            asked.append((permission, obj))
            return (permission, id(obj)) not in refused
    thread_local.interaction = Interaction()
    try:
        for turn in range(4):
            refused.clear()
            if turn % 2:
                refused.add((perms[names[k]], id(objs[k])))
                refused.add(('set.' + names[k], id(objs[k])))
            for j in (0, k):
                for how in ('get', 'set'):
                    for i, n in enumerate(names):
                        obj = objs[i if j == 0 else j]
                        chk = c.check_getattr if how == 'get' \
                            else c.check_setattr
                        del asked[:]
                        try:
                            chk(obj, n)
                            got = 'ok'
                        except Unauthorized as e:
                            got = 'no' if e.args[0] is obj and e.args[
                                1] == n else repr(e.args)
                        except ForbiddenAttribute:
                            got = 'forbidden'
                        rec.step()
                        p = perms[n] if how == 'get' else sets.get(n)
                        want = 'forbidden' if p is None else 'no' if (
                            p, id(obj)) in refused else 'ok'
                        if got != want or len(asked) != (p is not None) or (
                                p is not None and (asked[0][0] != p or
                                                   asked[0][1] is not obj)):
                            return bad(
                                rec, mode, 'turn %d, %s of %d of %d: %s, not '
                                '%s' % (turn, how, i, size, got, want))
    finally:
        del thread_local.interaction
    return 'size %d' % size


def sizes():
    for size in SIZES:
        for k in sorted({0, 1, size // 2, size - 1} & set(range(size))):
            yield dict(part='size', size=size, k=k)


def run_always(rec, mode, zc):
    """What is available by default is exactly the fixed set."""
    from zope.security.interfaces import ForbiddenAttribute
    c = zc.Checker({})
    for cls in (object, Obj, int, list, type, type(zc)):
        obj = zc if cls is type(zc) else cls if cls is type else cls()
        names = set(dir(obj)) | set(dir(type(obj))) | set(NAMES)
        for n in sorted(names):
            for chk in (c, zc._defaultChecker):
                try:
                    chk.check(obj, n)
                    ok = True
                except ForbiddenAttribute:
                    ok = False
                rec.step()
                want = n in ALWAYS or n == '__iter__' \
                    and not hasattr(obj, n) \
                    and not hasattr(obj, '__getitem__')
                if ok != want:
                    bad(rec, mode, 'default of %s for %r: %s' % (
                        n, type(obj), ok))
                try:
                    chk.check_setattr(obj, n)
                    ok = True
                except ForbiddenAttribute:
                    ok = False
                if ok:
                    bad(rec, mode, 'default setting of %s' % n)
    rec.trace('always', 'names of six kinds of objects')


def bounds(tier):
    return ('up to 257 names and objects on one checker; '
            '%d names x %d read and %d write declarations x %d policy '
            'answers x 3 checker kinds; the declarations of __iter__ and '
            '__getitem__ combined on %d kinds of objects; histories of up to %d of %d actions'
            % (len(NAMES), len(DECLARED), len(SETDECL), len(ANSWERS),
               len(OBJECTS),
               3 if tier == 'quick' else 4, len(ACTIONS)))


def jobs(tier):
    out = []
    for mode in ('c', 'pure'):
        out += lib.shards(2, mode=mode, part='table')
        if tier == 'quick':
            out += [dict(mode=mode, part='history', depth=3)]
        else:
            out += lib.shards(8, mode=mode, part='history', depth=4)
    for mode in ('watch', 'purewatch'):
        out.append(dict(mode=mode, part='table'))
        out.append(dict(mode=mode, part='indexed'))
    for mode in ('c', 'pure'):
        out.append(dict(mode=mode, part='size'))
        out.append(dict(mode=mode, part='indexed'))
    return out


def explore(job, rec):
    from zope.security import checker as zc
    import io
    zc.CheckerLoggingMixin._file = io.StringIO()
    model = Model(zc)
    mode = job['mode']
    if job['part'] == 'table':
        rec.case(dict(part='always'))
        run_always(rec, mode, zc)
        cases, run = table_cases(job), run_table
    elif job['part'] == 'indexed':
        cases, run = indexed_cases(job), run_indexed
    elif job['part'] == 'size':
        cases, run = sizes(), run_size
    else:
        cases, run = histories(job), run_history
    for case in lib.shard(cases, job):
        rec.case(case)
        rec.state(case)
        rec.trace(run(case, rec, mode, zc, model), case)


def replay(case, rec, job):
    from zope.security import checker as zc
    model = Model(zc)
    if case['part'] == 'always':
        return run_always(rec, job['mode'], zc)
    run = {'table': run_table, 'size': run_size, 'history': run_history,
           'indexed': run_indexed}[case['part']]
    rec.trace(run(case, rec, job['mode'], zc, model))
