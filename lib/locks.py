"""Which locks are held where: a lockset analysis of the classes that own a mutex, on their token trees.

For every member function (and every lambda in it) the analysis goes through the body in order, with the set of the
mutexes held -- scoped guards until the end of their block, explicit Lock/Unlock, the assertions that a lock is held --
and produces events: accesses to the fields which are guarded by a mutex, acquisitions, calls to functions of the same
class, calls on other objects.  A lambda is analysed on its own and accounted for where it is used: at its calls, at
the Await which evaluates it, in the algorithm of the standard library which calls it, or, if it escapes, in a thread
which holds nothing."""
import collections, os, re
import cxx
from vbuild import REPO

MUTEX = {'Mutex', 'mutex', 'shared_mutex', 'recursive_mutex', 'timed_mutex'}
GUARDS = {'MutexLock': 'x', 'ReaderMutexLock': 'r', 'WriterMutexLock': 'x', 'ReleasableMutexLock': 'x',
          'MutexLockMaybe': 'x', 'lock_guard': 'x', 'scoped_lock': 'x', 'unique_lock': 'x', 'shared_lock': 'r'}
ACQUIRE = {'Lock': 'x', 'WriterLock': 'x', 'ReaderLock': 'r', 'lock': 'x', 'lock_shared': 'r', 'LockWhen': 'x',
           'WriterLockWhen': 'x', 'ReaderLockWhen': 'r'}
RELEASE = {'Unlock', 'WriterUnlock', 'ReaderUnlock', 'unlock', 'unlock_shared', 'Release'}
ASSERT = {'AssertHeld': 'x', 'AssertReaderHeld': 'r'}
AWAIT = {'Await', 'AwaitWithTimeout', 'AwaitWithDeadline', 'LockWhen', 'ReaderLockWhen', 'WriterLockWhen',
         'LockWhenWithTimeout', 'LockWhenWithDeadline'}
REQUIRES = {'REQUIRES': 'x', 'ABSL_EXCLUSIVE_LOCKS_REQUIRED': 'x', 'REQUIRES_SHARED': 'r',
            'ABSL_SHARED_LOCKS_REQUIRED': 'r', 'EXCLUSIVE_LOCKS_REQUIRED': 'x', 'SHARED_LOCKS_REQUIRED': 'r'}
GUARDED = {'ABSL_GUARDED_BY', 'GUARDED_BY'}
MUTATE = {'clear', 'push_back', 'push_front', 'emplace', 'emplace_back', 'emplace_front', 'emplace_hint', 'insert',
          'erase', 'pop', 'pop_back', 'pop_front', 'push', 'reset', 'swap', 'resize', 'reserve', 'merge', 'splice',
          'extract', 'assign', 'append', 'insert_or_assign', 'try_emplace', 'Update', 'sort', 'remove', 'remove_if'}
ASSIGN = {'=', '+=', '-=', '*=', '/=', '|=', '&=', '^=', '%=', '<<=', '>>=', '++', '--'}
THREADS = {'thread', 'jthread', 'RecurringThread', 'ThreadPool'}
ASYNC = {'thread', 'jthread', 'async', 'bind', 'function', 'move_only_function', 'packaged_task', 'bind_front',
         'Add', 'RunWhenUnprotected', 'Bury', 'CallOnce', 'MakeStoppableThread', 'set_writer', 'Put'}

Event = collections.namedtuple('Event', 'kind name mode held tok extra')


class K:
    """A class that owns a mutex (or a thread)."""

    def __init__(self, c, unit):
        self.name, self.c, self.file = c.name, c, c.file
        self.fields = [m[0] for m in c.members]
        self.types = {m[0]: m[1] for m in c.members}
        self.locks = [m[0] for m in c.members if {str(t) for t in m[1]} & MUTEX and '*' not in m[1] and '<' not in m[1]]
        self.guard = {}
        for name, _, full in c.members:
            for i, t in enumerate(full):
                if t in GUARDED and full[i + 1:i + 2] == ['(']:
                    self.guard[name] = path(full[i + 2:cxx.match(full, i + 1)])
        self.threads = [m[0] for m in c.members if {str(t) for t in m[1]} & THREADS and '*' not in m[1]]
        self.callable_types = {'function', 'move_only_function', 'AnyInvocable'}
        for i, t in enumerate(c.body):
            if t == 'using' and c.body[i + 2:i + 3] == ['=']:
                j = i
                while c.body[j] != ';':
                    j += 1
                if set(str(x) for x in c.body[i + 3:j]) & self.callable_types:
                    self.callable_types.add(str(c.body[i + 1]))
        self.decls = collections.defaultdict(list)     # name -> [(access, requires, flags)]
        self.functions = []
        self.declarations(c)

    def declarations(self, c):
        toks, access, i, start, n = c.body, 'private', 0, 0, len(c.body)
        # `struct` cannot be told from the Class; the file can.
        head = open(os.path.join(REPO, c.file), encoding='utf-8').read().split('\n')[c.line - 1]
        if re.search(r'\bstruct\b', head):
            access = 'public'
        while i < n:
            t = toks[i]
            if t in ('public', 'private', 'protected') and toks[i + 1:i + 2] == [':']:
                access, start, i = str(t), i + 2, i + 2
                continue
            if t == '<':
                x = cxx.angle(toks, i)
                if x is not None:
                    i = x + 1
                    continue
            if t == '(' and i and toks[i - 1].kind == 'id' and not toks[i - 1].startswith('ABSL_') \
                    and toks[i - 1] not in ('decltype', 'alignas', 'requires', 'EXCLUDES', 'REQUIRES',
                                            'REQUIRES_SHARED'):
                name = str(toks[i - 1])
                if i >= 2 and toks[i - 2] == '~':
                    name = '~' + name
                k = cxx.match(toks, i)
                req, flags, j = [], {str(x) for x in toks[start:i]}, k + 1
                while j < n and toks[j] not in (';', '{', ':'):
                    if toks[j] in REQUIRES and toks[j + 1:j + 2] == ['(']:
                        e = cxx.match(toks, j + 1)
                        req += [(path(a), REQUIRES[toks[j]]) for a in cxx.split_args(toks[j + 2:e])]
                        j = e
                    elif toks[j] == '(':
                        j = cxx.match(toks, j)
                    else:
                        flags.add(str(toks[j]))
                    j += 1
                self.decls[name].append((access, req, flags))
                if j < n and toks[j] == ':':
                    while j < n and toks[j] not in ('{', ';'):
                        j = cxx.match(toks, j) if toks[j] == '(' else j
                        j += 1
                if j < n and toks[j] == '{':
                    j = cxx.match(toks, j)
                start = i = j + 1
                continue
            if t in ('{', '(', '['):
                i = cxx.match(toks, i) + 1
                continue
            if t == ';':
                start = i + 1
            i += 1

    @property
    def granting(self):
        """The functions which return a guard of the lock."""
        out = {}
        for name, ds in self.decls.items():
            for access, req, flags in ds:
                g = flags & set(GUARDS)
                if g and len(self.locks) == 1 and name != self.name:
                    out[name] = {self.locks[0]: GUARDS[sorted(g)[0]]}
        return out

    def requires(self, name):
        return {r for d in self.decls.get(name, ()) for r in d[1]}

    def public(self, name):
        ds = self.decls.get(name)
        return not ds or any(d[0] == 'public' for d in ds)


def path(toks):
    s = ''.join(str(t) for t in toks if t not in ('&', '*', '(', ')'))
    s = s.replace('->', '.')
    while s.startswith('this.'):
        s = s[5:]
    return s


def receiver(toks, i):
    """The tokens of the postfix expression that ends just before toks[i], which is . or ->."""
    j = i - 1
    while j >= 0:
        if toks[j] in (')', ']'):
            j = cxx.match_back(toks, j) - 1
            if j >= 0 and (toks[j].kind == 'id' and toks[j] not in ('return', 'if', 'while')):
                j -= 1
        elif toks[j].kind == 'id' or toks[j] == 'this':
            j -= 1
        else:
            break
        if j >= 0 and toks[j] in ('.', '->', '::'):
            j -= 1
            continue
        break
    return toks[j + 1:i]


def merge(a, b):
    """The locks held on both of two paths; '-' is for one that was released."""
    out = {}
    for p in set(a) | set(b):
        if '-' in (a.get(p), b.get(p)):
            out[p] = '-'
        elif p in a and p in b:
            out[p] = 'r' if 'r' in (a[p], b[p]) else 'x'
    return out


class Body:
    """The events of a function or lambda."""

    def __init__(self, k, toks, label, params=(), outer=None, entry=None):
        self.k, self.label, self.outer = k, label, outer
        self.events, self.lambdas, self.named = [], [], dict(outer.named) if outer else {}
        self.toks = toks
        self.callable = set(outer.callable) if outer else {
            m for m, ty in list(k.types.items()) + [(str(n), ty) for n, ty in params if n]
            if {str(x) for x in ty} & k.callable_types}
        self.fresh = set(outer.fresh) if outer else set()
        self.joined = False
        self.guards = {}
        self.block(toks, dict(entry or {}))

    def emit(self, kind, name, mode, held, tok, extra=None):
        self.events.append(Event(kind, name, mode, dict(held), tok, extra))

    def grant(self, t, p, mode, held, scoped):
        self.emit('acquire', p, mode, held, t)
        held[p] = mode
        scoped.add(p)

    def declare(self, toks, i):
        """If toks[i] is the name of a variable which is declared there (and is not a reference)."""
        if i == 0 or toks[i].kind != 'id' or i + 1 >= len(toks) or toks[i + 1] not in ('=', '{', '(', ';'):
            return False
        p = toks[i - 1]
        return p == '>' or (p.kind == 'id' and p not in ('return', 'new', 'delete', 'throw', 'else', 'case', 'co_return'))

    def block(self, toks, held):
        """Goes through the tokens of a block; returns the locks held at its end, None if it does not get there."""
        i, n, live = 0, len(toks), True
        outside = dict(held)
        scoped = set()
        first = None                # the token that starts the statement
        while i < n:
            t = toks[i]
            if first is None:
                first = t
            if t == '{':
                e = cxx.match(toks, i)
                prev = toks[i - 1] if i else ''
                if prev in (')', 'else', 'do', ';', '', '}', '{', 'try', ':') or (
                        prev in ('const', 'noexcept')):
                    before = dict(held)
                    after = self.block(toks[i + 1:e], dict(held))
                    # A block which is not conditional is gone through; of the others one cannot tell.
                    plain = prev in (';', '', '}', '{', 'do')
                    held = before if after is None else after if plain else merge(before, after)
                    first = None
                else:
                    self.block(toks[i + 1:e], dict(held))   # An initializer.
                i = e + 1
                continue
            if t == ';':
                if first in ('return', 'break', 'continue', 'throw', 'goto', 'co_return'):
                    live = False
                elif first is not None:
                    live = True
                first = None
                i += 1
                continue
            if t == '[' and self.is_lambda(toks, i):
                i = self.lam(toks, i, held)
                continue
            if t.kind == 'id':
                # A scoped guard.
                if t in GUARDS:
                    j = i + 1
                    if toks[j:j + 1] == ['<']:
                        x = cxx.angle(toks, j)
                        j = (x if x is not None else j) + 1
                    if j + 1 < n and toks[j].kind == 'id' and toks[j + 1] in ('(', '{'):
                        args, e = cxx.call_args(toks, j + 1)
                        if args and 'defer_lock' not in [str(x) for x in args[-1]]:
                            mutexes = args if t == 'scoped_lock' else args[:1]
                            for a in mutexes:
                                p = path(a)
                                self.emit('acquire', p, GUARDS[t], held, t)
                                held[p] = GUARDS[t]
                                scoped.add(p)
                                self.guards[str(toks[j])] = p
                            for a in args[1:]:
                                self.condition(a, path(args[0]), GUARDS[t], held)
                        i = e + 1
                        continue
                if t in ('make_unique', 'make_not_null_unique', 'make_optional', 'optional') and toks[i + 1:i + 2] == ['<']:
                    x = cxx.angle(toks, i + 1)
                    g = [y for y in toks[i + 2:x or i] if y in GUARDS]
                    if x is not None and g and toks[x + 1:x + 2] == ['(']:
                        args, e = cxx.call_args(toks, x + 1)
                        if args:
                            self.grant(t, path(args[0]), GUARDS[g[0]], held, scoped)
                            i = e + 1
                            continue
                prev = toks[i - 1] if i else ''
                nxt = toks[i + 1] if i + 1 < n else ''
                member = prev in ('.', '->')
                rec = path(receiver(toks, i - 1)) if member else ''
                if self.declare(toks, i) and not member:
                    self.fresh.add(str(t))
                if not member and i and nxt in ('=', ':', ';', '{', '(') and toks[i - 1] != ':':
                    # A declaration: is it that of a function object?
                    j = i - 1
                    while j >= 0 and toks[j] not in (';', '{', '}', '('):
                        j -= 1
                    d = {str(x) for x in toks[j + 1:i]}
                    if d & self.k.callable_types and d != {'return'}:
                        self.callable.add(str(t))
                    elif 'auto' in d and nxt in ('=', ':'):
                        j = i + 2
                        e = []
                        while j < n and toks[j] not in (';', '{', ')'):
                            e.append(str(toks[j]))
                            j = cxx.match(toks, j) + 1 if toks[j] == '(' else j + 1
                        if set(e) & self.callable and not {'size', 'empty', 'count', 'has_value'} & set(e):
                            if nxt == ':' or e[-2:-1] in (['second'], ['.'], ['->']) or len(e) <= 2 or 'second' in e:
                                self.callable.add(str(t))
                if nxt == '(' and str(t) in self.callable and (not member or rec == '') and \
                        (i == 0 or toks[i - 1].kind == 'op' or toks[i - 1] in ('return', 'else', 'co_return')):
                    # Not a declaration.
                    if not (i and toks[i - 1] in ('>', '&', '*')):
                        self.emit('invoke', str(t), None, held, t)
                # Operations on mutexes.
                if member and nxt == '(' and (rec in held or self.is_lock(rec) or rec in self.guards):
                    p = self.guards.get(rec, rec)
                    if t in ASSERT:
                        self.emit('assert', p, ASSERT[t], held, t)
                        if held.get(p) != 'x':
                            held[p] = ASSERT[t]
                        i += 1
                        continue
                    if t in ACQUIRE:
                        self.emit('acquire', p, ACQUIRE[t], held, t)
                        held[p] = ACQUIRE[t]
                    if t in RELEASE:
                        held[p] = '-'
                        self.emit('release', p, None, held, t)
                    if t in AWAIT:
                        self.emit('await', p, held.get(p), held, t)
                        args, e = cxx.call_args(toks, i + 1)
                        for a in args:
                            self.condition(a, p, held.get(p, 'x'), held)
                        i = e + 1
                        continue
                    if t in ACQUIRE or t in RELEASE:
                        i += 1
                        continue
                # Fields.
                own = not member or rec == '' or prev == '->' and toks[i - 2:i - 1] == ['this']
                if own and prev != '::' and str(t) in self.k.fields and not (toks[i - 1:i] == [','] and False):
                    self.field(toks, i, '', held)
                elif member and not own and str(t) in self.k.guard and nxt != '(':
                    self.field(toks, i, rec, held)
                # Calls.
                if nxt == '(' or (nxt == '<' and (cxx.angle(toks, i + 1) or n) + 1 < n
                                  and toks[cxx.angle(toks, i + 1) + 1] == '('):
                    if str(t) in self.named and not member:
                        self.events.append(Event('lambda', str(t), 'call', dict(held), t, self.named[str(t)]))
                    elif own and prev != '::':
                        self.emit('call', str(t), None, held, t)
                        if str(t) in self.k.granting:
                            held.update(self.k.granting[str(t)])
                            scoped.update(self.k.granting[str(t)])
                    elif member:
                        self.emit('other', str(t), rec, held, t)
                elif str(t) in self.named and not member:
                    self.use(toks, i, held)
            i += 1
        for p in scoped:
            held.pop(p, None)
            if p in outside:
                held[p] = outside[p]
        return held if live else None

    def is_lock(self, p):
        return p in self.k.locks or p.split('.')[-1] in self.k.locks

    def is_lambda(self, toks, i):
        if i and (toks[i - 1].kind in ('id', 'num', 'str') and toks[i - 1] not in ('return', 'co_return')
                  or toks[i - 1] in (')', ']')):
            return False
        if toks[i + 1:i + 2] == ['[']:
            return False
        e = cxx.match(toks, i)
        if toks[i - 1:i] == ['auto'] or toks[i - 2:i] in (['auto', '&'], ['auto', '&&']):
            return False
        return e + 1 < len(toks) and toks[e + 1] in ('(', '{', '<', 'mutable')

    def lam(self, toks, i, held):
        e = cxx.match(toks, i)
        j = e + 1
        # The captures are evaluated here.
        for a in cxx.split_args(toks[i + 1:e]):
            if '=' in a:
                self.block(list(a[a.index('=') + 1:]), dict(held))
        n = len(toks)
        while j < n and toks[j] != '{':
            if toks[j] == '(':
                j = cxx.match(toks, j)
            elif toks[j] == '<':
                x = cxx.angle(toks, j)
                j = x if x is not None else j
            j += 1
        if j >= n:
            return e + 1
        k = cxx.match(toks, j)
        body = Body(self.k, toks[j + 1:k], self.label, outer=self)
        self.lambdas.append(body)
        p = i - 1
        if p >= 1 and toks[p] == '=' and toks[p - 1].kind == 'id':
            self.named[str(toks[p - 1])] = body
            return k + 1
        if p >= 1 and toks[p] in ('(', '{') and toks[p - 1].kind == 'id' and k + 1 < n and self.declare(toks, p - 1):
            self.named[str(toks[p - 1])] = body
        elif toks[k + 1:k + 2] == ['(']:
            self.events.append(Event('lambda', '', 'call', dict(held), toks[i], body))
        else:
            self.events.append(Event('lambda', '', self.context(toks, i), dict(held), toks[i], body))
        return k + 1

    def context(self, toks, i):
        """Whether the lambda which is an argument at i is called by the callee before it returns."""
        d, j = 0, i - 1
        while j >= 0:
            if toks[j] in (')', ']', '}'):
                j = cxx.match_back(toks, j)
            elif toks[j] in ('(', '{'):
                break
            elif toks[j] == ';':
                return 'escape'
            j -= 1
        if j < 1:
            return 'escape'
        c = j - 1
        names = []
        while c >= 0 and (toks[c].kind == 'id' or toks[c] == '::'):
            names.insert(0, str(toks[c]))
            c -= 1
        if not names or names[-1] in ASYNC or 'Thread' in names[-1] or names[-1] in self.k.fields or \
                names[-1] in ('return', 'co_return'):
            return 'escape'
        if names[0] == 'std':
            return 'call'
        # Some function, which calls it or keeps it.
        return 'escape' if toks[j] == '{' else 'maybe'

    def use(self, toks, i, held):
        name = str(toks[i])
        mode = self.context(toks, i)
        self.events.append(Event('lambda', name, mode, dict(held), toks[i], self.named[name]))

    def condition(self, a, p, mode, held):
        """An argument of an Await: the functions in it are called with the lock held."""
        h = dict(held)
        h[p] = mode
        for i, t in enumerate(a):
            if t.kind == 'id' and str(t) in self.named:
                self.events.append(Event('lambda', str(t), 'call', h, t, self.named[str(t)]))
            elif t.kind == 'id' and str(t) in self.k.guard:
                self.field(a, i, '', h)
            elif t == '[' and self.is_lambda(a, i):
                e = cxx.match(a, i)
                j = e + 1
                while a[j] != '{':
                    j = cxx.match(a, j) if a[j] == '(' else j
                    j += 1
                body = Body(self.k, a[j + 1:cxx.match(a, j)], self.label, outer=self)
                self.lambdas.append(body)
                self.events.append(Event('lambda', '', 'call', h, t, body))
                return

    def field(self, toks, i, rec, held):
        name = str(toks[i])
        self.emit('field', name, 'w' if writes(toks, i) else 'r', held, toks[i], rec)


def writes(toks, i):
    if i and toks[i - 1] in ('++', '--'):
        return True
    if i >= 1 and toks[i - 1] == '(' and toks[max(0, i - 4):i - 1] == ['std', '::', 'move']:
        return True
    j = i + 1
    n = len(toks)
    while j < n:
        if toks[j] == '[':
            j = cxx.match(toks, j) + 1
        elif toks[j] == '.' and j + 1 < n and toks[j + 1].kind == 'id':
            if toks[j + 2:j + 3] == ['(']:
                return str(toks[j + 1]) in MUTATE
            j += 2
        elif toks[j] == '->' and j + 1 < n and toks[j + 2:j + 3] != ['(']:
            j += 2
        else:
            break
    return j < n and str(toks[j]) in ASSIGN


def stem(f):
    return re.sub(r'(_body)?\.(hpp|cpp)$', '', f)


def classes(*dirs):
    """The classes which own a mutex or a thread, with their functions."""
    by_stem = collections.defaultdict(list)
    for f in cxx.files(*dirs):
        by_stem[stem(f)].append(f)
    out = []
    for s, fs in sorted(by_stem.items()):
        units = [cxx.unit(f) for f in fs]
        ks = [K(c, u) for u in units for c in u.classes
              if any({str(t) for t in m[1]} & (MUTEX | THREADS) for m in c.members)]
        for k in ks:
            for u in units:
                for fn in u.functions:
                    if fn.cls.split('::')[-1] == k.name:
                        k.functions.append(fn)
            if k.locks or k.threads:
                out.append(k)
    return out
