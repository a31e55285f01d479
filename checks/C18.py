#!/usr/bin/env python3
import collections, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import cxx, locks, vlib
from vlib import Broken

RULE = ('Interprocedural lockset analysis of every class that owns a mutex or a thread: each access to a field guarded '
        'by a mutex is made with it held (exclusively if it is a write) on every path from a public function, a thread '
        'or a callback; a function which expects a lock is called with it held; no function acquires a lock that its '
        'callers hold, and the order of the acquisitions has no cycle; no function returns a reference to a guarded '
        'field past the release of the lock; a thread is joined before the members which it uses are destroyed.')

DIRS = ('base', 'geometry', 'numerics', 'physics', 'integrators', 'ksp_plugin', 'journal', 'astronomy', 'mathematica')
# What C05 decides by interpreting the code: two specializations share a name.
ELSEWHERE = {'RecurringThread'}


# An assertion in a callback is a promise of whoever calls it, which is enforced when it does.
ASSERTED = 'the lock is asserted to be held'


class Function:
    def __init__(self, k, fn):
        self.k, self.fn, self.name = k, fn, fn.name
        req = k.requires(fn.name)
        for i, t in enumerate(fn.quals):
            if t in locks.REQUIRES and fn.quals[i + 1:i + 2] == ['(']:
                e = cxx.match(fn.quals, i + 1)
                req |= {(locks.path(a), locks.REQUIRES[t]) for a in cxx.split_args(fn.quals[i + 2:e])}
        self.requires = req
        self.ctor = fn.name == k.name or fn.name == '~' + k.name
        self.dtor = fn.name == '~' + k.name
        self.body = locks.Body(k, fn.body, fn.qname, params=fn.params, entry={p: m for p, m in req})
        self.inits = []
        for member, args in fn.inits:
            b = locks.Body(k, args, fn.qname)
            self.inits.append((str(cxx.base_name(member) or ''), b))
        self.needs = {}      # lock -> (mode, where, what)
        self.acquires = {}   # lock -> where
        self.callers = 0

    def where(self, tok):
        return '%s:%d (%s)' % (tok.file, tok.line, self.fn.qname)


def stronger(a, b):
    return 'x' if 'x' in (a, b) else 'r'


class Analysis:
    def __init__(self, check, k):
        self.c, self.k = check, k
        self.fns = [Function(k, f) for f in k.functions]
        self.by_name = collections.defaultdict(list)
        for f in self.fns:
            self.by_name[f.name].append(f)
        self.reported = set()
        self.sites = 0
        self.counting = True
        self.annotated = set(k.guard)
        self.infer()

    def infer(self):
        """Without annotations, the mutex guards the members which are written with it held."""
        k = self.k
        if k.guard or not k.locks:
            return
        for f in self.fns:
            if f.ctor:
                continue
            for b, e in self.events(f):
                if e.kind == 'field' and e.mode == 'w' and not e.extra and e.name not in k.locks:
                    for p, m in e.held.items():
                        if p in k.locks and m == 'x' and 'atomic' not in k.types.get(e.name, ()):
                            k.guard.setdefault(e.name, p)

    def bodies(self, b):
        yield b
        for l in b.lambdas:
            yield from self.bodies(l)

    def events(self, f):
        for b in [f.body] + [x for _, x in f.inits]:
            for x in self.bodies(b):
                for e in x.events:
                    yield x, e

    def bad(self, key, f, tok, msg):
        if (key, tok.file, tok.line) in self.reported:
            return
        self.reported.add((key, tok.file, tok.line))
        self.c.violation('%s:%s' % (self.k.name, key), f.where(tok), msg)

    # -- what a body needs on entry, given what it holds itself.
    def joins(self, f, body, seen=()):
        """The indices of the events of `body` after which the threads of the object are known to have ended."""
        out, toks = {}, body.toks
        for t in self.k.threads:
            for i, x in enumerate(toks):
                if x == t and x.kind == 'id' and (i == 0 or toks[i - 1] not in ('.', '::')):
                    rest = [str(y) for y in toks[i + 1:i + 8]]
                    if rest[:3] in (['.', 'join', '('], ['->', 'join', '('], ['->', 'Stop', '(']) or rest[:3] == ['.', 'Stop', '('] or \
                            rest[:3] == ['.', 'reset', '('] or \
                            rest[:1] == ['='] and rest[1:2] in (['std'], ['{']) and \
                            (rest[1:7] == ['std', '::', 'jthread', '(', ')', ';'] or
                             rest[1:7] == ['std', '::', 'jthread', '{', '}', ';'] or rest[1:4] == ['{', '}', ';']):
                        out[t] = min(out.get(t, (10 ** 9,)), (x.line, i))
                if x == 'for' and t in [str(y) for y in toks[i:i + 12]] and 'join' in [str(y) for y in toks[i:i + 40]]:
                    out[t] = min(out.get(t, (10 ** 9,)), (x.line, i))
        for i, x in enumerate(toks):
            if x.kind == 'id' and toks[i + 1:i + 2] == ['('] and (i == 0 or toks[i - 1] not in ('.', '->', '::')) and \
                    x in self.by_name and x not in seen:
                for g in self.by_name[str(x)]:
                    for t in self.joins(g, g.body, seen + (str(x),)):
                        out[t] = min(out.get(t, (10 ** 9,)), (x.line, i))
        return out

    def needs(self, f, body, stack=()):
        """The (lock, mode) needed on entry, with a site for each; reports what is wrong with other objects."""
        out = {}

        def need(p, mode, tok, what):
            if p not in out or stronger(out[p][0], mode) != out[p][0]:
                out[p] = (mode, tok, what)

        def lacks(held, p, mode):
            return held.get(p, '-') == '-' or mode == 'x' and held[p] != 'x'

        joined = self.joins(f, body)
        alone = max(joined.values()) if joined and set(joined) == set(self.k.threads) else None
        for e in body.events:
            if e.kind == 'field':
                g = self.k.guard.get(e.name)
                if g is None:
                    continue
                mode = 'x' if e.mode == 'w' else 'r'
                if self.counting:
                    self.sites += 1
                if e.extra:
                    base = e.extra.split('.')[0]
                    p = e.extra + '.' + g
                    if base in body.fresh or not lacks(e.held, p, mode) or f.ctor:
                        continue
                    if '.' in e.extra or e.extra in self.k.fields:
                        continue   # A member of the same name of something else.
                    if self.counting and self.same_class(f, base):
                        self.bad('unguarded:%s:%s' % (f.name, e.name), f, e.tok, '%s of another %s is %s without its %s' % (
                            e.name, self.k.name, 'written' if mode == 'x' else 'read', g))
                elif lacks(e.held, g, mode):
                    if alone is not None and (e.tok.line, 0) > (alone[0], 0):
                        continue
                    if g in e.held:
                        # Whatever the callers hold, it is not held exclusively here.
                        if self.counting and not f.ctor and (e.held[g] == 'r' or e.name in self.annotated):
                            self.bad('unguarded:%s:%s' % (f.name, e.name), f, e.tok, '%s is %s with %s %s' % (
                                e.name, 'written' if mode == 'x' else 'read', g,
                                'held shared' if e.held[g] == 'r' else 'released'))
                        continue
                    need(g, mode, e.tok, '%s is %s' % (e.name, 'written' if mode == 'x' else 'read'))
            elif e.kind == 'assert':
                if e.name in self.k.locks and lacks(e.held, e.name, e.mode):
                    need(e.name, e.mode, e.tok, ASSERTED)
            elif e.kind == 'await':
                if e.mode is None and e.name in self.k.locks:
                    need(e.name, 'r', e.tok, 'the lock is released by a wait')
            elif e.kind == 'call':
                gs = self.by_name.get(e.name, ())
                for p, mode in self.k.requires(e.name) if not gs else ():
                    if lacks(e.held, p, mode):
                        need(p, mode, e.tok, '%s is called' % e.name)
                for g in gs:
                    for p, (mode, tok, what) in self.entry(g).items():
                        if lacks(e.held, p, mode):
                            need(p, mode, e.tok, 'calling %s, in which %s at %s:%d' % (e.name, what, tok.file, tok.line))
            elif e.kind == 'lambda' and e.extra not in stack:
                inner = self.needs(f, e.extra, stack + (e.extra,))
                for p, (mode, tok, what) in inner.items():
                    if e.mode in ('call', 'maybe'):
                        if lacks(e.held, p, mode):
                            need(p, mode, tok, what)
                    elif self.counting and what != ASSERTED:
                        self.bad('unguarded:%s:%s' % (f.name, what.split(' ')[0]), f, tok,
                                 'in a function called by a thread or a callback, %s without %s%s' % (
                                     what, p, ' held exclusively' if mode == 'x' else ''))
        return out

    def same_class(self, f, base):
        for name, ty in f.fn.params:
            if name == base:
                return any(t == self.k.name for t in ty)
        return False

    def entry(self, g):
        out = {p: (m, g.fn.body[0] if g.fn.body else None, 'the lock is required') for p, m in g.requires}
        out.update({p: v for p, v in g.needs.items() if p not in out or stronger(out[p][0], v[0]) != out[p][0]})
        return {p: v for p, v in out.items() if v[1] is not None}

    def held_events(self, f):
        """The events with all the locks which are held then: a lambda has those of the place where it is called."""
        def go(b, outer, stack):
            for e in b.events:
                h = dict(outer)
                h.update(e.held)
                if e.kind == 'lambda':
                    if e.extra not in stack:
                        yield from go(e.extra, h if e.mode in ('call', 'maybe') else {}, stack + (e.extra,))
                else:
                    yield e._replace(held=h)
        for b in [f.body] + [x for _, x in f.inits]:
            yield from go(b, {p: v[0] for p, v in self.entry(f).items()}, (b,))

    def fixpoint(self):
        self.counting = False
        for _ in range(20):
            changed = False
            for f in self.fns:
                n = {}
                for b in [f.body] + [x for _, x in f.inits]:
                    for p, v in self.needs(f, b).items():
                        if p not in n or stronger(n[p][0], v[0]) != n[p][0]:
                            n[p] = v
                if {p: v[0] for p, v in n.items()} != {p: v[0] for p, v in f.needs.items()}:
                    f.needs, changed = n, True
                a = self.taken(f)
                if set(a) != set(f.acquires):
                    f.acquires, changed = a, True
            if not changed:
                break
        else:
            raise Broken('the lock sets of %s do not converge' % self.k.name)
        self.counting = True

    def acquired(self, name):
        """The locks that all the overloads acquire."""
        gs = self.by_name.get(name, ())
        return {p: t for p, t in gs[0].acquires.items() if all(p in g.acquires for g in gs)} if gs else {}

    def taken(self, f):
        """The locks of the object which the function acquires before it returns."""
        out = {}

        def go(b, stack):
            for e in b.events:
                if e.kind == 'acquire' and e.name in self.k.locks:
                    if e.name not in f.needs and e.name not in dict(f.requires):
                        out.setdefault(e.name, e.tok)
                elif e.kind == 'call':
                    for p, t in self.acquired(e.name).items():
                        if p not in f.needs and p not in dict(f.requires):
                            out.setdefault(p, t)
                elif e.kind == 'lambda' and e.mode == 'call' and e.extra not in stack:
                    go(e.extra, stack + (e.extra,))
        go(f.body, ())
        return out

    def roots(self):
        called = collections.Counter()
        for f in self.fns:
            for b, e in self.events(f):
                if e.kind == 'call':
                    called[e.name] += 1
        for f in self.fns:
            yield f, self.k.public(f.name) or not called[f.name]

    def run(self):
        self.fixpoint()
        nested = {}
        for f, root in self.roots():
            bodies = [f.body] + [x for _, x in f.inits]
            for b in bodies:
                for p, (mode, tok, what) in self.needs(f, b).items():
                    if not root or f.ctor:
                        continue
                    if self.documented_unlocked(f):
                        nested.setdefault(f.name, mode)
                        continue
                    self.bad('unguarded:%s:%s' % (f.name, what.split(' ')[0]), f, tok, '%s without %s%s' % (
                        what, p, ' held exclusively' if mode == 'x' else ''))
            # Locks are not recursive.
            for b in bodies:
                self.relock(f, b, {})
        return nested

    def documented_unlocked(self, f):
        """The functions whose callers are in charge of the synchronization have it in their name."""
        return 'locked' in f.name.lower()

    def relock(self, f, body, outer, stack=()):
        for e in body.events:
            held = dict(outer, **e.held)
            if e.kind == 'acquire':
                self.c.obligation(1, '%s acquired at %s:%d' % (e.name, e.tok.file, e.tok.line))
                if held.get(e.name, '-') != '-':
                    self.bad('relock:' + f.name, f, e.tok, '%s is acquired while it is held' % e.name)
            elif e.kind == 'call':
                for p, t in self.acquired(e.name).items():
                    if held.get(p, '-') != '-':
                        self.bad('relock:' + f.name, f, e.tok, '%s is called with %s held, and acquires it at %s:%d' % (
                            e.name, p, t.file, t.line))
            elif e.kind == 'lambda' and e.mode == 'call' and e.extra not in stack:
                self.relock(f, e.extra, held, stack + (e.extra,))

    # -- references which outlive the lock.
    def escapes(self):
        k = self.k
        if k.threads:
            return    # The fields which are not written by the thread are only used by the client.
        for f in self.fns:
            if f.ctor or f.requires or self.documented_unlocked(f) or not f.acquires:
                continue
            head = [str(t) for t in f.fn.head]
            if not head or head[-1] not in ('&',) and '&' not in [str(t) for t in f.fn.head[-1:]]:
                continue
            self.c.obligation(1, 'the reference returned by %s' % f.fn.qname)
            names = self.derived(f)
            toks = f.fn.body
            for i, t in enumerate(toks):
                if t == 'return':
                    j = i
                    while toks[j] != ';':
                        j += 1
                    expr = toks[i + 1:j]
                    for x, y in enumerate(expr):
                        if y.kind == 'id' and (str(y) in k.guard or str(y) in names) and \
                                (x == 0 or expr[x - 1] not in ('.', '->', '::')):
                            self.bad('escape:' + f.name, f, y,
                                     'a reference to what %s guards is returned and the lock is released' % (
                                         k.guard.get(str(y)) or names[str(y)]))

    def derived(self, f):
        """The local variables which are iterators or references into the guarded fields."""
        out, toks = {}, f.fn.body
        for i, t in enumerate(toks):
            if t.kind == 'id' and toks[i + 1:i + 2] == ['='] and i and 'auto' in [str(x) for x in toks[max(0, i - 3):i]]:
                j = i + 2
                expr = []
                while j < len(toks) and toks[j] not in (';', ')'):
                    expr.append(toks[j])
                    if toks[j] == '(':
                        e = cxx.match(toks, j)
                        expr += toks[j + 1:e + 1]
                        j = e
                    j += 1
                if expr and str(expr[0]) in self.k.guard and len(expr) > 3 and expr[2] in (
                        'begin', 'cbegin', 'find', 'lower_bound', 'upper_bound', 'rbegin', 'front', 'back', 'at'):
                    out[str(t)] = self.k.guard[str(expr[0])]
        return out

    # -- the end of the threads.
    def reach(self, f, body, seen):
        """The fields that are used by a body and by what it calls."""
        out = {}
        for e in body.events:
            if e.kind == 'field' and not e.extra:
                out.setdefault(e.name, (f, e.tok))
            elif e.kind == 'call':
                for g in self.by_name.get(e.name, ()):
                    if g not in seen:
                        seen.add(g)
                        for b in self.bodies(g.body):
                            out.update({a: v for a, v in self.reach(g, b, seen).items() if a not in out})
            elif e.kind == 'acquire' and e.name in self.k.locks:
                out.setdefault(e.name, (f, e.tok))
            elif e.kind == 'lambda' and e.mode == 'call' and e.extra is not body:
                out.update({a: v for a, v in self.reach(f, e.extra, seen).items() if a not in out})
        return out

    def teardown(self):
        k = self.k
        dtors = [f for f in self.fns if f.dtor]
        for t in k.threads:
            ty = [str(x) for x in k.types[t]]
            if 'ThreadPool' in ty:
                continue    # Its calls are waited for through their futures.
            started = []
            for f in self.fns:
                for member, b in f.inits:
                    if member == t:
                        started += [(f, x) for x in b.lambdas]
                for b in self.bodies(f.body):
                    toks = b.toks
                    # T = MakeStoppableThread(...), T = std::jthread(...), T.emplace...(...), T.Add(...)
                    i = 0
                    for i, x in enumerate(toks):
                        if x == t and (toks[i + 1:i + 2] == ['='] or
                                       [str(y) for y in toks[i + 1:i + 3]] in (
                                           ['.', 'emplace'], ['.', 'emplace_back'], ['.', 'push_back'], ['.', 'Add'],
                                           ['->', 'Add'])):
                            j = i
                            while j < len(toks) and toks[j] != ';':
                                j = cxx.match(toks, j) if toks[j] in ('(', '{') else j
                                j += 1
                            first, last = toks[i], toks[min(j, len(toks) - 1)]
                            for e in b.events:
                                if e.kind == 'lambda' and any(e.tok is y or e.extra.toks and any(
                                        e.extra.toks[0] is y for y in toks[i:j]) for y in toks[i:j]):
                                    started.append((f, e.extra))
            if not started:
                continue
            joined = any(t in self.joins(f, f.body) for f in dtors)
            after = k.fields[k.fields.index(t) + 1:]
            for f, b in started:
                used = self.reach(f, b, set())
                self.c.obligation(1 + len(used), 'the thread %s::%s uses %s' % (k.name, t, ', '.join(sorted(used))))
                if joined:
                    continue
                if 'thread' in ty:
                    self.c.violation('%s:join:%s' % (k.name, t), k.file, 'a std::thread is not joined by the destructor')
                for a in after:
                    if a in used:
                        g, tok = used[a]
                        self.c.violation('%s:teardown:%s' % (k.name, t), g.where(tok),
                                         'the thread %s of %s uses %s, which is destroyed before the thread is joined' % (
                                             t, k.name, a))
                        break


def check(c):
    analyses, order = [], {}
    for k in locks.classes(*DIRS):
        if k.name in ELSEWHERE:
            continue
        a = Analysis(c, k)
        analyses.append(a)
    unlocked = {}
    for a in analyses:
        for name, mode in a.run().items():
            unlocked.setdefault(name, set()).add((a.k.name, mode))
        a.escapes()
        a.teardown()
        c.obligation(a.sites, '%s: accesses to the guarded fields %s' % (
            a.k.name, ', '.join('%s (%s)' % x for x in sorted(a.k.guard.items()))))
    by_class = {a.k.name: a for a in analyses}
    # The functions which leave the synchronization to their callers are called with a lock of the caller held.
    for a in analyses:
        for f in a.fns:
            for e in a.held_events(f):
                if e.kind == 'other' and e.name in unlocked:
                    owners = {n for n, m in unlocked[e.name]}
                    if a.k.name in owners or not a.k.locks:
                        continue
                    ok = any(p in a.k.locks and m != '-' for p, m in e.held.items())
                    c.obligation(1, '%s calls %s at %s:%d' % (f.fn.qname, e.name, e.tok.file, e.tok.line))
                    if not ok:
                        a.bad('unlocked:%s:%s' % (f.name, e.name), f, e.tok,
                              '%s, which leaves the locking to its callers, is called without any lock' % e.name)
    # Functions given by the client are called without any lock, lest they call back.
    for a in analyses:
        for f in a.fns:
            for e in a.held_events(f):
                if e.kind == 'invoke':
                    c.obligation(1, '%s calls the function %s at %s:%d' % (f.fn.qname, e.name, e.tok.file, e.tok.line))
                    for p, m in sorted(e.held.items()):
                        if p in a.k.locks and m != '-':
                            a.bad('callback:' + f.name, f, e.tok, 'the function %s is called with %s held' % (e.name, p))
    # The order of the acquisitions.
    edges = collections.defaultdict(dict)
    for a in analyses:
        for f in a.fns:
            for e in a.held_events(f):
                mine = [p for p, m in e.held.items() if p in a.k.locks and m != '-']
                if not mine:
                    continue
                if e.kind == 'acquire' and e.name in a.k.locks:
                    for p in mine:
                        if p != e.name:
                            edges[(a.k.name, p)].setdefault((a.k.name, e.name), f.where(e.tok))
                elif e.kind == 'other' and mine:
                    target = receiver_class(a, e.mode, by_class)
                    if target is not None and target is not a:
                        for g in target.by_name.get(e.name, ()):
                            for p in g.acquires:
                                for q in mine:
                                    edges[(a.k.name, q)].setdefault((target.k.name, p), f.where(e.tok))
                elif e.kind == 'call' and mine:
                    for g in a.by_name.get(e.name, ()):
                        for p in g.acquires:
                            for q in mine:
                                if p != q:
                                    edges[(a.k.name, q)].setdefault((a.k.name, p), f.where(e.tok))
    c.obligation(sum(len(x) for x in edges.values()), 'order of the locks: ' + '; '.join(
        '%s::%s before %s' % (x + (', '.join('%s::%s' % y for y in sorted(ys)),)) for x, ys in sorted(edges.items())))
    for start in sorted(edges):
        stack, seen = [(start, ())], set()
        while stack:
            x, trail = stack.pop()
            for y, w in edges.get(x, {}).items():
                if y == start:
                    c.violation('order:%s' % '::'.join(start), w, 'the locks are acquired in a cycle: %s' % (
                        ' -> '.join('%s::%s' % z for z in (start,) + trail + ((x,) if x != start else ()) + (start,))))
                    stack = []
                    break
                if y not in seen:
                    seen.add(y)
                    stack.append((y, trail + ((x,) if x != start else ())))
    c.require('classes with a mutex or a thread', len(analyses), 15)
    c.require('accesses to guarded fields', sum(a.sites for a in analyses), 150)


def receiver_class(a, rec, by_class):
    """The class of a member, if it owns a lock."""
    base = rec.split('.')[0].split('[')[0]
    ty = a.k.types.get(base)
    if ty is None:
        return None
    for t in ty:
        if str(t) in by_class:
            return by_class[str(t)]
    return None


vlib.main(check, 'C18', 'other', RULE)
