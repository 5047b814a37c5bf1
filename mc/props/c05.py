"""C05: threads never see or affect each other's interactions.

Real threads under a controlled scheduler: for every set of small programs,
every schedule with at most the bound of preemptions, the scheduling points
being the opcodes (or lines) of the package's Python code and of the policy
used.  Each thread's observations must be those it makes when it is alone,
which a reference model of the life cycle supplies.
"""
import itertools
import os

from mc import checkers
from mc import lib
from mc import sched

ASSUMPTIONS = [
    'C code of the accelerators is atomic except where it calls Python code '
    '(it does not release the interpreter lock otherwise)',
    'the installed policy is shared by all threads and set before they start',
]

HERE = os.path.abspath(__file__)

# A program is a string of steps.
#  N newInteraction   E endInteraction   R restoreInteraction   Q query
#  G getInteraction   A read through the shared proxy           W write
#  P checkPermission  C canAccess        X scoped interaction and a read
#  S str() of the shared proxy           M a call returning a proxied result
#  Z newInteraction without participations
PROGRAMS = ['NAE', 'NEQ', 'NAERA', 'AQ', 'RQA', 'NPEP', 'XQ', 'NWC', 'QNQEQ',
            'NEREQ', 'NNA', 'NMA', 'EGR', 'NSP', 'ZAE', 'ZNEZ']
FEW = ['NAE', 'AQ', 'NERA', 'XP', 'QNW']
TRACED_HERE = {'checkPermission', '__init__', 'permitted'}


def load():
    """The policy; imported late because it belongs to the tested package."""
    from zope.security.simplepolicies import ParanoidSecurityPolicy

    class Policy(ParanoidSecurityPolicy):
        def checkPermission(self, permission, obj):
            permitted = [p.principal.id for p in self.participations]
            return permission in permitted
    return Policy, ParanoidSecurityPolicy


class Target:
    def __init__(self):
        self.__dict__.update(t0='v0', t1='v1', t2='v2', common='vc')

    def method(self):
        return []

    def __setattr__(self, name, value):
        pass

    def __str__(self):
        return 'target'


class Context:
    """Shared objects of one execution."""

    def __init__(self, policy, nthreads):
        from zope.security import checker as zc
        from zope.security import management
        from zope.security.proxy import Proxy
        Policy, Paranoid = load()
        self.zc = zc
        self.management = management
        self.policy = policy
        management.setSecurityPolicy(
            Policy if policy == 'own' else Paranoid)
        perms = {'t%d' % i: 't%d' % i for i in range(3)}
        get = dict(perms, method='t0', __str__='t1')
        checker = zc.Checker(get, dict(perms))
        if policy == 'combined':
            checker = zc.CombinedChecker(zc.Checker({}, {'x': 'x'}), checker)
        self.proxy = Proxy(Target(), checker)
        self.observed = [[] for i in range(nthreads)]
        self.expected = [None] * nthreads
        self.names = {}

    def principal(self, i):
        from zope.security.testing import Principal
        if self.policy == 'paranoid' and i == 0:
            return self.management.system_user
        return Principal('t%d' % i)

    def participation(self, i):
        from zope.security.testing import Participation
        return Participation(self.principal(i))


def program(context, i, steps):
    """The i-th thread's program, which notes what it sees."""
    m = context.management
    zc = context.zc
    from zope.security import testing
    from zope.security.interfaces import ForbiddenAttribute
    from zope.security.interfaces import NoInteraction
    from zope.security.interfaces import Unauthorized
    out = context.observed[i]
    p = context.proxy
    mine = {}

    def attempt(fn):
        try:
            return fn()
        except Unauthorized:
            return 'unauthorized'
        except ForbiddenAttribute:
            return 'forbidden'
        except m.ExistingInteraction:
            return 'existing'
        except NoInteraction:
            return 'nointeraction'
        except AttributeError:
            return 'noattr'

    def who(inter):
        if inter is None:
            return None
        if inter not in mine.values():
            n = context.names.get(id(inter))
            return 'foreign %r' % (n,) if n else 'number %d' % i \
                if inter.participations and \
                inter.participations[0] in parts else 'unknown'
        return 'own'
    parts = []

    def read():
        return [attempt(lambda: getattr(p, 't%d' % k)) for k in range(2)]

    def main(s):
        for k, step in enumerate(steps):
            s.point(('step', i, k))
            if step == 'N':
                part = context.participation(i)
                parts.append(part)
                r = attempt(lambda: m.newInteraction(part))
                if r is None:
                    inter = m.queryInteraction()
                    mine[k] = inter
                    r = [inter.participations == [part],
                         part.interaction is inter]
            elif step == 'Z':
                r = attempt(m.newInteraction)
                if r is None:
                    mine[k] = inter = m.queryInteraction()
                    r = inter.participations == []
            elif step == 'E':
                r = attempt(m.endInteraction)
            elif step == 'R':
                r = attempt(m.restoreInteraction)
            elif step == 'Q':
                r = who(m.queryInteraction())
            elif step == 'G':
                r = attempt(m.getInteraction)
                if not isinstance(r, str):
                    r = who(r)
            elif step == 'A':
                r = read()
            elif step == 'W':
                r = [attempt(lambda: setattr(p, 't%d' % k, 1))
                     for k in range(2)]
            elif step == 'P':
                r = [attempt(lambda: m.checkPermission('t%d' % k, 5))
                     for k in range(2)]
            elif step == 'C':
                r = [attempt(lambda: zc.canAccess(p, 't%d' % k))
                     for k in range(2)]
            elif step == 'S':
                r = attempt(lambda: str(p))
                r = 'default' if 'security proxied' in r else r
            elif step == 'M':
                r = attempt(lambda: len(p.method()))
            elif step == 'X':
                def scoped():
                    with testing.interaction('t%d' % i):
                        return read()
                r = attempt(scoped)
            out.append(r)
    return main


def model(policy, i, steps):
    """What a thread sees when alone."""
    cur = prev = None           # None, 'own', or 'bare': no participations
    out = []

    def allowed(perm, cur=None, scoped=False):
        if cur == 'bare':
            return policy == 'paranoid'
        if policy == 'paranoid':
            return i == 0 and not scoped
        return perm == 't%d' % i

    def reads(state, scoped, values, no, none='noattr'):
        if state is None:
            return [none, none]
        return [v if allowed('t%d' % k, state, scoped) else no
                for k, v in enumerate(values)]
    for step in steps:
        if step == 'N':
            if cur is not None:
                r = 'existing'
            else:
                cur = 'own'
                r = [True, True]
        elif step == 'Z':
            r = 'existing' if cur else True
            cur = cur or 'bare'
        elif step == 'E':
            prev, cur = cur, None
            r = None
        elif step == 'R':
            cur = prev
            r = None
        elif step == 'Q':
            r = cur and 'own'
        elif step == 'G':
            r = 'own' if cur else 'nointeraction'
        elif step == 'A':
            r = reads(cur, False, ['v0', 'v1'], 'unauthorized')
        elif step == 'W':
            r = reads(cur, False, [None, None], 'unauthorized')
        elif step == 'P':
            r = reads(cur, False, [True, True], False, 'nointeraction')
        elif step == 'C':
            r = reads(cur, False, [True, True], False)
        elif step == 'S':
            if cur is None:
                r = 'default'
            else:
                r = 'target' if allowed('t1', cur) else 'default'
        elif step == 'M':
            if cur is None:
                r = 'noattr'
            else:
                r = 'len' if allowed('t0', cur) else 'unauthorized'
                if r == 'len':
                    r = 0
        elif step == 'X':
            if cur is None:
                r = reads('own', True, ['v0', 'v1'], 'unauthorized')
                prev, cur = 'own', None
            else:
                r = reads(cur, False, ['v0', 'v1'], 'unauthorized')
        out.append(r)
    return out


_src = []


def traced(code):
    if not _src:
        import zope.security
        _src.append(os.path.realpath(zope.security.__path__[0]))
    f = code.co_filename
    if f == HERE:
        return code.co_name in TRACED_HERE
    return os.path.realpath(f).startswith(_src[0])


def run_case(case, rec, mode, only=None):
    programs = case['programs']
    n = len(programs)
    after = {int(k): v for k, v in case.get('after', {}).items()}

    def make():
        checkers.cleanup()
        context = Context(case['policy'], n)
        # the main thread has an interaction of its own
        context.management.newInteraction(context.participation(2))
        context.main = context.management.queryInteraction()
        return [program(context, i, p)
                for i, p in enumerate(programs)], context

    def check(context, s):
        for i, p in enumerate(programs):
            want = model(case['policy'], i, p)
            if context.observed[i] != want:
                return ('another thread interfered: thread %d running %r saw '
                        '%r, alone %r' % (i, p, context.observed[i], want))
        if context.management.queryInteraction() is not context.main:
            return "another thread interfered: the main thread's " \
                'interaction changed'
        context.management.endInteraction()

    def state(context, s):
        pos = [None] * n
        for (i, _), w in zip(s.log, s.where):
            pos[i] = w
            yield case['policy'], *programs, *pos
    if only is not None:
        schedule, order = only
        msg, s = sched.run_one(make, check, schedule, order, rec, case,
                               traced, case['opcodes'], after, state)
        return s
    return sched.explore(make, check, case['bound'], rec, n, case, traced,
                         case['opcodes'], after, None, state)


def cases(job):
    part = job['part']
    brief = job['tier'] == 'quick' and job['mode'] == 'pure'
    if part == 'pairs':
        for a, b in itertools.combinations_with_replacement(
                range(7 if brief else len(PROGRAMS)), 2):
            for policy in ('own', 'paranoid'):
                if policy == 'paranoid' and not (
                        a in (0, 2, 5) or b in (0, 2, 5)):
                    continue
                yield dict(programs=[PROGRAMS[a], PROGRAMS[b]],
                           policy=policy, bound=1, opcodes=True)
                if policy == 'own' and a != b:
                    yield dict(programs=[PROGRAMS[b], PROGRAMS[a]],
                               policy=policy, bound=1, opcodes=False)
    elif part == 'deep':
        for a, b in itertools.product(['NA', 'QNW'] if brief else FEW, repeat=2):
            yield dict(programs=[a, b], policy='own', bound=2, opcodes=False)
    elif part == 'generations':
        for a, b in itertools.product(
                PROGRAMS[:7] if brief else PROGRAMS, repeat=2):
            # the second thread starts when the first has ended
            yield dict(programs=[a, b], policy='own', bound=0, opcodes=False,
                       after={1: 0})
        for a, b, c in itertools.product(['N', 'NE', 'NEN'], ['NA', 'XQ'],
                                         ['QRQ', 'RA', 'AE', 'NA']):
            yield dict(programs=[a, b, c], policy='own', bound=1,
                       opcodes=False, after={2: 0})
    elif part == 'triples':
        for t in itertools.product(['NA', 'XQ', 'QRE'], repeat=3):
            yield dict(programs=list(t), policy='own', bound=1, opcodes=True)
    elif part == 'deeper':
        for a, b in itertools.product(PROGRAMS[:8], repeat=2):
            yield dict(programs=[a, b], policy='own', bound=2, opcodes=False)
        for a, b in itertools.product(['NA', 'XQ', 'QRE', 'NE'], repeat=2):
            yield dict(programs=[a, b], policy='own', bound=2, opcodes=True)
        for a, b in itertools.product(['NA', 'RA', 'E'], repeat=2):
            yield dict(programs=[a, b], policy='own', bound=3, opcodes=False)


def bounds(tier):
    return ('2 threads, %d programs in pairs, every opcode, 1 preemption; %d '
            'programs in pairs, every line, 2 preemptions (fewer programs for the '
            'Python implementation); threads starting '
            'after others ended%s' % (
                len(PROGRAMS), len(FEW), '' if tier == 'quick' else
                '; 3 threads, every opcode, 1 preemption; 8 programs in '
                'pairs with 2 preemptions, 2 preemptions at opcodes, 3 at '
                'lines'))


def jobs(tier):
    out = []
    parts = [('pairs', 4), ('deep', 4), ('generations', 3)]
    if tier == 'thorough':
        parts += [('triples', 4), ('deeper', 8)]
    for mode in ('c', 'pure'):
        for part, n in parts:
            out += lib.shards(n, mode=mode, part=part)
    return out


def determinism(rec, mode):
    """The scheduler repeats itself exactly: what is replayed is what ran."""
    case = dict(programs=['NAE', 'XQ'], policy='own', opcodes=True)
    s1 = run_case(case, rec, mode, ({}, (0, 1)))
    n = s1.n
    for schedule in ({n // 3: 1}, {n // 5: 1, n // 2: 0}):
        a = run_case(case, rec, mode, (schedule, (0, 1)))
        b = run_case(case, rec, mode, (schedule, (0, 1)))
        assert (a.where, a.log) == (b.where, b.log)
        assert a.where != s1.where


def explore(job, rec):
    mode = job['mode']
    determinism(rec, mode)
    for case in lib.shard(cases(job), job):
        n = run_case(case, rec, mode)
        rec.extra['schedules'] = rec.extra.get('schedules', 0) + n
        rec.outcomes['%s bound %d' % (job['part'], case['bound'])] += n


def replay(case, rec, job):
    run_case(case, rec, job['mode'],
             ({tuple(k) if isinstance(k, list) else k: v
               for k, v in case['schedule']}, tuple(case['order'])))
