"""C24: permission queries ask the right interaction and nothing else.

Every permission kind x object x explicit interaction x current interaction x
answer, and every history up to the bound of queries with the current
interaction changing in between, against a table.
"""
import itertools

from mc import checkers
from mc import lib

ASSUMPTIONS = ['interactions given explicitly are not None']


class Boom(Exception):
    pass


class Thing:
    def __eq__(self, other):
        return True

    __hash__ = object.__hash__


ANSWERS = ['true', 'false', 'one', 'none', 'text', 'thing', 'boom', 'lookup',
           'nointeraction', 'attribute', 'unauthorized']
PERMISSIONS = ['public', 'none', 'p', 'empty', 'zope.Public', 'look',
               'global', 'zero', 'false']
OBJECTS = ['none', 'thing', 'proxy', 'int', 'public']
WHERE = ['absent', 'falsy', 'normal']


class World:
    def __init__(self):
        from zope.security import checker as zc
        from zope.security import management
        from zope.security.interfaces import NoInteraction
        from zope.security.interfaces import Unauthorized
        from zope.security.proxy import getObject
        from zope.security._definitions import thread_local
        self.tl = thread_local
        self.m = management
        self.NoInteraction = NoInteraction
        self.answers = {
            'true': True, 'false': False, 'one': 1, 'none': None,
            'text': 'text', 'thing': Thing(), 'boom': Boom(),
            'lookup': LookupError('x'), 'nointeraction': NoInteraction(),
            'attribute': AttributeError('x'),
            'unauthorized': Unauthorized('x')}
        self.permissions = {
            'public': zc.CheckerPublic, 'none': None, 'p': 'p', 'empty': '',
            'zope.Public': 'zope.Public', 'look': Thing(),
            'global': getObject(zc.CheckerPublic), 'zero': 0, 'false': False}
        o = Thing()
        self.objects = {'none': None, 'thing': o, 'int': 5,
                        'proxy': zc.ProxyFactory(Thing()),
                        'public': zc.CheckerPublic}
        self.log = log = []
        world = self

        class Interaction:
            def __init__(self, which):
                self.which = which
                self.answer = 'true'

            def checkPermission(self, permission, obj):
                log.append((self.which, permission, obj))
                a = world.answers[self.answer]
                if isinstance(a, Exception):
                    raise a
                return a

        class Falsy(Interaction):
            def __bool__(self):
                return False

            def __eq__(self, other):
                return True

            __hash__ = object.__hash__
        self.classes = {'normal': Interaction, 'falsy': Falsy}

    def interaction(self, kind, which):
        if kind == 'absent':
            return None
        return self.classes[kind](which)

    def set_current(self, i):
        if i is None:
            try:
                del self.tl.interaction
            except AttributeError:
                pass
        else:
            self.tl.interaction = i

    def query(self, perm, obj, explicit, current, keyword):
        """None or what is wrong."""
        p, o = self.permissions[perm], self.objects[obj]
        del self.log[:]
        before = dict(self.tl.__dict__)
        try:
            if explicit is None and not keyword:
                r = self.m.checkPermission(p, o)
            elif keyword:
                r = self.m.checkPermission(p, o, interaction=explicit)
            else:
                r = self.m.checkPermission(p, o, explicit)
            got = 'ret', r
        except Exception as e:
            got = 'exc', e
        if self.tl.__dict__ != before or any(
                self.tl.__dict__[k] is not before[k] for k in before):
            return "the thread's interaction changed"
        if perm in ('public', 'none'):
            if got[0] != 'ret' or got[1] is not True:
                return 'public gave %r' % (got,)
            return 'asked %r' % (self.log,) if self.log else None
        who = explicit if explicit is not None else current
        if who is None:
            if got[0] != 'exc' or type(got[1]) is not self.NoInteraction \
                    or got[1] is self.answers['nointeraction']:
                return 'without interaction %r' % (got,)
            return None
        if len(self.log) != 1 or self.log[0][0] != who.which \
                or self.log[0][1] is not p or self.log[0][2] is not o:
            return 'asked %r' % (self.log,)
        a = self.answers[who.answer]
        if (got[0] == 'exc') != isinstance(a, Exception) or got[1] is not a:
            return 'answer %r became %r' % (a, got)
        return None


def table():
    for t in itertools.product(PERMISSIONS, OBJECTS, WHERE, WHERE, ANSWERS,
                               ANSWERS, (False, True)):
        perm, obj, e, c, ea, ca, kw = t
        if e == 'absent' and ea != 'true' or c == 'absent' and ca != 'true':
            continue
        yield dict(zip(('perm', 'obj', 'explicit', 'current', 'eanswer',
                        'canswer', 'keyword'), t))


def run_table(w, case, rec):
    e = w.interaction(case['explicit'], 'explicit')
    c = w.interaction(case['current'], 'current')
    if e is not None:
        e.answer = case['eanswer']
    if c is not None:
        c.answer = case['canswer']
    w.set_current(c)
    msg = w.query(case['perm'], case['obj'], e, c, case['keyword'])
    rec.step()
    w.set_current(None)
    if msg:
        rec.violation(msg, case, fingerprint=msg[:25])
    return '%s %s' % (case['explicit'], case['current'])


ACTIONS = [('cur', None), ('cur', 0), ('cur', 1), ('answer', 0, 'false'),
           ('answer', 0, 'boom'), ('answer', 1, 'false'),
           ('query', 'p', None), ('query', 'p', 0), ('query', 'p', 1),
           ('query', 'public', None), ('query', 'q', None), ('real', 'new'),
           ('real', 'end'), ('real', 'restore')]


def run_history(w, history, rec):
    w.permissions['q'] = 'q'
    inters = [w.interaction('normal', 'zero'), w.interaction('normal', 'one')]
    current = None
    checkers.cleanup()
    prev = None
    paranoid = None
    msg = None
    for a in history:
        if a[0] == 'cur':
            current = None if a[1] is None else inters[a[1]]
            w.set_current(current)
            paranoid = None
        elif a[0] == 'answer':
            inters[a[1]].answer = a[2]
        elif a[0] == 'real':
            if a[1] == 'new':
                if w.m.queryInteraction() is None:
                    w.m.newInteraction()
                    paranoid = current = w.m.queryInteraction()
            elif a[1] == 'end':
                w.m.endInteraction()
                prev, current = current, None
            else:
                w.m.restoreInteraction()
                current = prev
        else:
            e = None if a[2] is None else inters[a[2]]
            who = e if e is not None else current
            if who is not None and who not in inters:
                # a real one without participations
                if w.m.checkPermission(w.permissions[a[1]], 5) is not True:
                    msg = 'empty interaction refused'
            else:
                msg = w.query(a[1], 'thing', e, current, False)
        rec.step()
        if msg:
            rec.violation('%s after %r' % (msg, history), history,
                          fingerprint=msg[:25])
            break
    checkers.cleanup()
    return repr(paranoid)[:5] + history[-1][0]


def bounds(tier):
    return ('%d permissions x %d objects x 3 explicit x 3 current '
            'interactions x %d answers of each; histories of %d of %d '
            'actions' % (len(PERMISSIONS), len(OBJECTS), len(ANSWERS),
                         4 if tier == 'quick' else 5, len(ACTIONS)))


def jobs(tier):
    out = []
    for mode in ('c', 'pure'):
        out.append(dict(mode=mode, part='table'))
        out += lib.shards(2 if tier == 'quick' else 4, mode=mode,
                          part='history',
                          depth=4 if tier == 'quick' else 5)
    return out


def explore(job, rec):
    w = World()
    if job['part'] == 'table':
        for case in table():
            rec.case(case)
            rec.state(case)
            rec.trace(run_table(w, case, rec), case)
        return
    for h in lib.shard(itertools.product(ACTIONS, repeat=job['depth']), job):
        if h[-1][0] != 'query':
            continue
        rec.case(h)
        rec.state(h)
        rec.trace(run_history(w, h, rec), h)


def replay(case, rec, job):
    w = World()
    if isinstance(case, dict):
        run_table(w, case, rec)
    else:
        run_history(w, case, rec)
