#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
S = 'src/zope/security/'
PROXY, CPROXY = S + 'proxy.py', S + '_proxy.c'
CHK, CCHK = S + 'checker.py', S + '_zope_security_checker.c'
MGMT, DEFS, SIMPLE = S + 'management.py', S + '_definitions.py', S + 'simplepolicies.py'
P = []


def prop(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    assert len(title) <= 80, title
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files,
                          mechanism=[dict(name=n, where=w) for n, w in mech],
                          observe_at=observe, hook_needed=hook))
    if state:
        d['anchors']['state'] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    P.append(d)


prop('C01', 'A refused operation never reaches the protected object',
     "Whatever operation is applied to a security-proxied object, with the proxy in any operand position, the "
     "object's checker is asked about exactly that operation before the object is touched, and when it refuses, the "
     "object is not touched and the refusal reaches the caller. When it agrees, exactly that operation is carried out "
     "once on the object with the caller's operands and its outcome, value or exception, is what the caller sees. Only "
     "comparison, hashing, truth testing and length hints bypass the checker, and refused str/repr yield only a safe "
     "default text; the C and the pure-Python proxies both behave so.",
     ['inputs', 'histories'],
     "for every Python operation (attribute get/set/delete, call, item access, iteration, conversions, every unary, "
     "binary, reflected, in-place and ternary operator, and builtins composed of them), every operand position, every "
     "single-name grant or refusal by the checker, and both proxy implementations",
     "The tests check each slot in one position with one checker answer, mostly on the class it is convenient for; no "
     "test covers the product of operations, positions and decisions, nor operations that no slot was written for "
     "(inherited slots let them through).",
     [PROXY, CPROXY],
     [('check-then-delegate slots', CPROXY + ':check1/check2/check2i, proxy_* slots'),
      ('wrapped special methods', PROXY + ':_check_name, _check_name_inplace, ProxyPy')],
     ['operators and builtins applied to a proxy; an instrumented target and a recording checker'])

prop('C02', 'Results of permitted operations are themselves protected',
     "The value produced by any permitted operation on a proxied object reaches the caller protected exactly as if that "
     "value had been proxied afresh: values whose type is registered as harmless come through as themselves, already "
     "protected values are not wrapped twice, and everything else arrives proxied under the checker chosen for that "
     "value. An in-place operation that returns the object itself yields the same proxy, still guarding the same "
     "object with the same checker. Only str() and repr() yield plain text.",
     ['inputs', 'histories'],
     "for every value-returning operation (including non-boolean comparison results), every kind of result value "
     "(harmless, container, instance, instance with its own checker, class, callable, iterator, already proxied) and "
     "both implementations",
     "Tests sample a few operations with one result type; in-place and comparison results and values carrying their own "
     "checker are tested for one implementation or not at all.",
     [PROXY, CPROXY, CHK, CCHK],
     [('result proxying', CPROXY + ':PROXY_RESULT'), ('checker.proxy', CHK + ':CheckerPy.proxy'),
      ('Checker_proxy', CCHK + ':Checker_proxy')],
     ['type and checker of every value an operation on a proxy returns'])

prop('C03', 'A program holding only proxies cannot escape its grants',
     "A program that starts with only a proxied object and combines harmless values and what it obtains by attribute "
     "access, calls, indexing, iteration, operators and in-place operators (not by inspecting exceptions or through "
     "classes and callbacks of its own) never obtains an unprotected reference to a non-harmless object, "
     "never obtains or replaces a proxy's checker or wrapped object, and never changes an object through an operation "
     "that was not granted.",
     ['programs', 'histories'],
     "for every sequence of operations up to the bound, over all values obtained so far, starting from proxies of a "
     "small world of instances, containers, callables, modules, classes and iterators under several grant sets",
     "Confinement is a property of all programs; the tests check single steps and cannot rule out a chain of individually "
     "reasonable steps that leaks a bare object or swaps a checker.",
     [PROXY, CPROXY, CHK, CCHK],
     [('transitive proxying', CHK + ':CheckerPy.proxy / selectChecker / _default_checkers'),
      ('private slots of the Python proxy', PROXY + ':ProxyPy.__getattribute__/__setattr__')],
     ['the set of values reachable by the program and the state of the protected world'])

prop('C04', 'Name-based checkers decide exactly as declared',
     "A name-based checker grants a name declared public unconditionally, grants a name declared with a permission "
     "exactly when the caller's current interaction allows that permission on that very object, and otherwise raises "
     "unauthorized naming object, name and permission. A name that is not declared, or declared with no permission, is "
     "forbidden, except for the fixed set of always-available names on reading and the iteration name on an object that "
     "is not iterable; reading and writing are decided by separate declarations and every check is decided afresh.",
     ['inputs', 'histories', 'configurations'],
     "for every name of every class of names (declared, undeclared, always available, iteration, dunder, odd strings), "
     "every declared permission value, every policy answer including exceptions and answers that change between "
     "checks, with and without an interaction, for reads and writes, in the C and the Python checker",
     "The unit tests check one name per rule with a stub interaction; nothing covers the table of name class x "
     "permission x answer x direction, nor sequences in which the answer or the declaration changes.",
     [CHK, CCHK, DEFS],
     [('CheckerPy.check / check_setattr', CHK + ':CheckerPy'), ('Checker_check_int, checkPermission', CCHK)],
     ['check, check_getattr, check_setattr, permission_id, setattr_permission_id; reads and writes through a proxy'])

prop('C05', "Threads never see or affect each other's interactions",
     "Starting, ending, restoring or querying an interaction in one thread never changes what any other thread observes "
     "as its current or restorable interaction, and every permission check made in a thread, directly or through a "
     "shared proxy or checker, is decided by that thread's own current interaction, whatever the interleaving.",
     ['schedules', 'histories'],
     "for every interleaving, up to the preemption bound, of small per-thread programs of interaction management and "
     "checked accesses on shared proxies, checkers and policies",
     "The existing tests use at most one thread: isolation across interleavings is untested.",
     [MGMT, DEFS, CHK, CCHK, SIMPLE],
     [('thread_local', DEFS + ':thread_local'), ('checkPermission in C', CCHK + ':checkPermission'),
      ('interaction management', MGMT)],
     ['per-thread observations (current interaction, grant or refusal) under a controlled scheduler'],
     state=[('interaction / previous_interaction', "the thread's current and restorable interaction", DEFS)])

prop('C06', 'The interaction life cycle follows its contract in every history',
     "At most one interaction is current per thread: starting one while another is current fails and changes nothing, "
     "starting one otherwise asks the installed policy for it with exactly the given participations, ending makes none "
     "current and remembers what was current, and restoring makes the remembered one, or none, current again. "
     "Querying, getting and permission checks reflect exactly that state, a failed start leaves it unchanged, setting "
     "the policy returns the previous one and affects only later starts, and the test-support scope starts an interaction "
     "only when none is current, then ends the current one when it is left in any way, and otherwise changes nothing.",
     ['histories', 'fault_sequences'],
     "for every sequence up to the bound of start, end, restore, query, get, policy changes, scoped interactions "
     "(including body exceptions) and clean-ups, with policies that succeed or raise",
     "Tests exercise a handful of two- or three-step sequences; the state machine's corner histories (double end then "
     "restore, restore while active, failing policy, clean-up in the middle) are not covered.",
     [MGMT, S + 'testing.py', DEFS],
     [('newInteraction, endInteraction, restoreInteraction', MGMT), ('interaction context manager', S + 'testing.py')],
     ['return values and exceptions of the management functions, queryInteraction, getSecurityPolicy'])

prop('C07', 'The simple policies admit and bind participations as documented',
     "Under the paranoid policy a non-public permission is allowed exactly when every current participation belongs to "
     "the system principal (in particular when there is none), while the permissive policy allows everything, and "
     "public is always allowed. A participation belongs to at most one interaction at a time: adding a bound one or "
     "removing a foreign one fails and changes nothing, and removal makes it addable again.",
     ['histories', 'inputs'],
     "for every sequence up to the bound of adds and removes of several participations over two interactions, with "
     "every check asked in every reached state",
     "Tests add one or two participations once; orders, repeated moves between interactions and mixed principals after "
     "removals are unexplored.",
     [SIMPLE],
     [('ParanoidSecurityPolicy', SIMPLE), ('PermissiveSecurityPolicy', SIMPLE)],
     ['checkPermission, participations, participation.interaction'])

prop('C08', 'The checker registry always answers from the latest registrations',
     "The checker chosen for an object is always the one currently registered for its exact type, resolving factories "
     "until a checker or 'no proxy' results and otherwise falling back to the restrictive default; defining for "
     "a type or module twice or for something else fails and changes nothing, and undefining restores the "
     "undefined state. Basic types registered or removed take effect immediately and survive clean-up, which forgets "
     "every other registration and restores the built-in ones.",
     ['histories', 'configurations'],
     "for every sequence up to the bound of define, undefine, basic-type changes, in-place checker changes, clean-up and "
     "lookups over several types, modules and kinds of checkers, checked after every step for every type",
     "Tests register one type and look it up once; stale answers after re-registration or clean-up need histories.",
     [CHK, CCHK],
     [('defineChecker, undefineChecker, selectChecker', CHK), ('selectChecker', CCHK),
      ('_BasicTypes and _clear', CHK)],
     ['selectChecker, getCheckerForInstancesOf, moduleChecker, ProxyFactory'],
     state=[('_checkers', 'type or module to checker', CHK), ('BasicTypes', 'harmless types', CHK)])

prop('C09', 'Combined and decorated checkers grant the union of their parts',
     "A combination of two checkers grants exactly what either grants, asks the second only when the first does not "
     "grant, and refuses with unauthorized if either part would be unauthorized and as forbidden otherwise, for reads and writes and "
     "at any nesting. An object decorated with a security-aware decorator or a location proxy is protected by that "
     "combination of the decorator's and the decorated object's protections, whichever of them exist.",
     ['inputs', 'configurations', 'programs'],
     "for every pair and nesting up to the bound of part decisions (grant, unauthorized, forbidden, other error) and "
     "every combination of decorator, decorated value and their protections",
     "Tests check the flat table once for reads and a few decorator cases; nested combinations and the decorator "
     "matrix are not covered.",
     [CHK, S + 'decorator.py'],
     [('CombinedChecker', CHK), ('DecoratedSecurityCheckerDescriptor', S + 'decorator.py')],
     ['check, check_getattr, check_setattr, accesses through proxies of decorated objects'])

prop('C10', 'Proxying is idempotent, unspoofable and never swaps a checker',
     "Proxying an object uses the explicitly given checker, else the object's own, else the one registered for its "
     "type, and returns the object itself only when that says no protection is needed; proxying a proxy returns that "
     "very proxy, and asking for a different checker on it fails. Removing the proxy returns exactly the original "
     "object, a proxy without a checker cannot be created, and security-aware isinstance answers as for the original "
     "object.",
     ['inputs', 'histories'],
     "for every kind of object, every source of checker (given, own, registered, factory, none), and every chain of "
     "proxying and unproxying steps up to the bound",
     "Tests check single calls for single objects; precedence between sources and chains of calls are not combined.",
     [CHK, CCHK, PROXY, CPROXY],
     [('ProxyFactory', CHK), ('getObject/getChecker', PROXY + ', ' + CPROXY)],
     ['ProxyFactory, Checker.proxy, getChecker, removeSecurityProxy, isinstance'])

prop('C11', 'Built-in values are readable but immutable by default',
     "With the default registrations, proxied built-in containers, iterators, functions, methods, classes, modules, "
     "decimals and interface objects allow only non-mutating operations, permit their documented reading operations, "
     "deliver the contained objects protected, and never let any public operation change them; an instance of any other class "
     "exposes nothing but the always-available names, and harmless immutable values are not proxied at all.",
     ['inputs', 'programs'],
     "for every built-in type with a default protection, every public attribute and operator of it, with a range of "
     "arguments, in both implementations",
     "Tests list some names per type; they do not enumerate all names of a type, so an extra mutator in a declaration "
     "or an unmediated slot goes unnoticed.",
     [CHK],
     [('_default_checkers, BasicTypes, _available_by_default', CHK)],
     ['snapshot of the value before and after every operation on its default proxy; results'])

prop('C12', 'Checker constructors declare exactly the requested union',
     "The checkers built from names, interfaces and lists of specifications require for each mentioned name exactly the "
     "permission mentioned for it, including inherited interface names and keyword additions, and nothing else; "
     "mentioning a name twice with different permissions is refused as a duplication, and write access is never "
     "granted by them.",
     ['inputs', 'configurations'],
     "for every combination up to the bound of specifications over a small set of names, interfaces and permissions, "
     "with overlaps",
     "Tests construct a few specification lists; overlaps between all kinds of specification are not enumerated.",
     [CHK],
     [('NamesChecker, InterfaceChecker, MultiChecker', CHK)],
     ['permission_id, setattr_permission_id and effective checks of the built checker'])

prop('C13', 'Class protections accumulate exactly as the calls made',
     "After any sequence of protect-name, protect-attribute-writing and protect-like calls, the permission needed to "
     "read or write each name on each class is that of the last call that mentioned it, with the public permission meaning "
     "unconditional; copying protections is a snapshot of the source at that moment that adds to or overrides the "
     "target and never links the two.",
     ['histories'],
     "for every sequence up to the bound of the three calls over several classes, names and permissions, including classes "
     "with pre-existing checkers, compared with a reference table after every step",
     "Tests run one or two calls; aliasing between classes and override order need sequences.",
     [S + 'protectclass.py', CHK],
     [('protectName, protectSetAttribute, protectLikeUnto', S + 'protectclass.py')],
     ['permission_id/setattr_permission_id of the class checker, real accesses through proxies'])

prop('C14', 'Class directives in ZCML produce exactly the declared protections',
     "After executing a configuration, each class grants exactly what its class directives declare: read permissions "
     "for listed names and all names of listed interfaces, write permissions for listed attributes and for the "
     "non-read-only fields of listed schemas, and what it copies from other classes. Conflicting declarations, "
     "declarations requiring nothing or naming no permission, and undefined permissions are refused, whatever the order of the directives.",
     ['configurations', 'programs'],
     "for every configuration made of up to the bound of require, allow, implements and like-class subdirectives over small sets "
     "of attributes, interfaces, schemas and permissions, in every order",
     "Functional tests run a few fixed ZCML snippets; the product of subdirectives, orders and conflicts is untested.",
     [S + 'metaconfigure.py', S + 'metadirectives.py', S + 'meta.zcml', S + 'zcml.py', S + 'protectclass.py'],
     [('ClassDirective', S + 'metaconfigure.py'), ('Permission field', S + 'zcml.py')],
     ['effective permissions per class and name after execution; configuration errors'])

prop('C15', 'Module directives protect exactly the declared names',
     "After executing module directives, a proxied module allows reading exactly the names listed directly or through "
     "interfaces, each with its declared permission, and nothing can be set or deleted on it; the same name declared "
     "twice conflicts, and other modules are unaffected.",
     ['configurations', 'programs'],
     "for every configuration of up to the bound of allow and require directives over two modules and a small set of "
     "names, interfaces and permissions",
     "Tests contain a few fixed module examples.",
     [S + 'metaconfigure.py', S + 'metadirectives.py', S + 'meta.zcml', CHK],
     [('allow, require, protectModule', S + 'metaconfigure.py'), ('moduleChecker', CHK)],
     ['reads through a proxied module; moduleChecker; configuration errors'])

prop('C16', 'Permission names in ZCML are checked, redefined and scoped correctly',
     "A permission named in a configuration must be defined somewhere in it, before or after its use, or be public, "
     "else execution fails; a redefinition of a permission replaces the name for exactly the later directives of its own scope and "
     "of files included from there, and never outside. Defining permissions and choosing the security policy by "
     "configuration take effect as declared.",
     ['configurations', 'programs'],
     "for every configuration tree up to the bound of nested files with permission definitions, redefinitions and uses in "
     "every order",
     "One fixed redefinition file is tested; scoping, ordering and chains of redefinitions are not.",
     [S + 'zcml.py', S + 'meta.zcml', S + 'permission.py'],
     [('Permission field, redefinePermission, permission, securityPolicy', S + 'zcml.py')],
     ['permission actually required after execution; configuration errors'])

prop('C17', 'Trusted adapters get bare objects and hand back protected ones',
     "A trusted adapter factory calls the wrapped factory with unprotected objects only, and returns a protected adapter exactly when "
     "any argument was protected; an untrusted one passes arguments through untouched. "
     "The adapter is given its context as parent exactly when documented: a location-aware adapter without a parent gets the "
     "context, one with a parent keeps it, and a non-location-aware adapter is location-proxied only by the locating "
     "kinds when they must.",
     ['inputs', 'configurations'],
     "for every adapter factory kind, every number of arguments and pattern of protected and unprotected arguments, and "
     "every kind of adapter (location-aware or not, parent set or not, self-protecting or not)",
     "Tests check selected combinations with one or two arguments.",
     [S + 'adapter.py'],
     [('LocatingTrustedAdapterFactory, TrustedAdapterFactory, LocatingUntrustedAdapterFactory, assertLocation',
       S + 'adapter.py')],
     ['arguments received by the factory, type, parent and protection of the returned adapter'])

prop('C18', 'Access predictions agree with actual accesses',
     "Asking whether a name can be read answers yes exactly when reading it through the proxy would not be refused and no "
     "exactly when it would be unauthorized; a forbidden read is reported as forbidden. Asking whether a "
     "name can be written agrees with writing in the same way, except that a forbidden write answers no when the name can be read or "
     "is merely unauthorized to read; asking never performs the access or changes anything.",
     ['inputs', 'configurations'],
     "for every combination of read and write decision, proxied or bare object, object's own, registered or combined "
     "checker, and policy answer, in both implementations",
     "Tests check a few permission pairs; agreement with the real access is not asserted anywhere.",
     [CHK],
     [('canAccess, canWrite', CHK)],
     ['results of the prediction functions versus real accesses through the proxy'])

prop('C19', 'Permission lookups and vocabularies mirror the registered permissions',
     "A permission is accepted exactly when it is public or currently registered in the given context, and the listing and "
     "vocabularies contain exactly the registered permissions: the listing without public, one vocabulary mapping ids "
     "to permission objects, the other mapping ids to ids with public first and mapped to the public marker and the rest "
     "in order.",
     ['histories', 'configurations'],
     "for every sequence of registrations and unregistrations of permissions up to the bound, with every query after "
     "each step",
     "Tests register two or three permissions once.",
     [S + 'permission.py'],
     [('checkPermission, allPermissions, PermissionsVocabulary, PermissionIdsVocabulary', S + 'permission.py')],
     ['the permission functions and the vocabularies'])

prop('C20', 'The public marker is one object everywhere',
     "The marker for unconditional access keeps its identity through proxying, storing in and reading back from protected "
     "structures, copying by reference and pickling in every protocol, and wherever the public permission name is accepted as "
     "configuration it becomes that marker, so that it grants without consulting any interaction; no other value is ever treated as public.",
     ['inputs', 'programs', 'configurations'],
     "for every route (proxying, containers, attribute reads, pickling protocols, configuration calls) and chain of "
     "routes up to the bound, and every look-alike value",
     "Tests check pickling once and the marker in one declaration.",
     [CHK, CCHK, S + 'protectclass.py', S + 'metaconfigure.py'],
     [('CheckerPublic, Global', CHK), ('public translation', S + 'protectclass.py, ' + S + 'metaconfigure.py')],
     ['identity of the marker after each route, decisions with look-alikes'])

prop('C21', 'The C and the pure-Python implementations behave identically',
     "For the same objects, checkers, policies and operations the accelerated and the pure-Python implementation grant "
     "and refuse the same accesses, touch the object in the same way and return or raise the same, equally protected, "
     "results, apart from a short documented list of differences.",
     ['inputs', 'programs', 'histories'],
     "for every operation program up to the bound over a common world of objects, run in both implementations and "
     "compared step by step",
     "Each implementation has its own unit tests; nothing runs the same programs on both and compares.",
     [PROXY, CPROXY, CHK, CCHK],
     [('paired implementations', ', '.join([PROXY, CPROXY, CHK, CCHK]))],
     ['step-by-step outcomes of the same program in two processes'])

prop('C22', 'No operation on a proxy can crash or leak, and garbage is reclaimed',
     "No operation with any operands, any names and any checker behaviour (including errors raised in the checker, "
     "in the policy or by the object) crashes the interpreter or leaves behind or drops references to the objects involved, and proxies "
     "and checkers that are only part of a cycle are reclaimed.",
     ['inputs', 'fault_sequences'],
     "for every operation, operand position, odd name or operand and every point at which the checker, the policy, the result "
     "protection or the object fails",
     "The tests never look at reference counts and pass no odd names; error paths of the C code are mostly not executed.",
     [CPROXY, CCHK],
     [('reference counting and error paths', CPROXY + ', ' + CCHK), ('proxy_traverse, Checker_traverse', CPROXY + ', ' + CCHK)],
     ['process survival, reference counts and allocated blocks before and after, weak references after collection'])

prop('C23', 'Watching checkers changes no decision and reports every refusal',
     "With checker watching turned on, every check and write check decides and raises exactly as without it, for plain and combined checkers "
     "and in every implementation, and each refused check writes one line naming the kind of refusal, the name "
     "and the object; granted checks are reported only at higher verbosity.",
     ['configurations', 'inputs'],
     "for every decision, name class, check kind, verbosity and checker kind, with watching on and off",
     "Watching is tested for single names with the default verbosity; decision equality is not compared across the table.",
     [CHK],
     [('CheckerLoggingMixin, WatchingChecker, WatchingCombinedChecker', CHK)],
     ['decisions and exceptions with and without watching, and the log'])

prop('C24', 'Permission queries ask the right interaction and nothing else',
     "A permission query answers yes without consulting anyone for the public marker or for no permission; otherwise it "
     "returns exactly what the explicitly given interaction, or else the thread's current one, answers for that permission and that "
     "very object, passing on its errors, and fails when there is neither.",
     ['inputs', 'histories'],
     "for every permission kind, object, presence and identity of explicit and current interactions, every answer of the "
     "interaction, and every change of the current interaction between queries",
     "Tests check each case once with a stub.",
     [MGMT],
     [('checkPermission', MGMT)],
     ['result and the calls recorded by the interactions'])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl'), 'w') as f:
    for d in P:
        f.write(json.dumps(d) + '\n')
print(len(P), 'properties')
