#!/usr/bin/env python3
import os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import ai, astlib, conc, vlib
from ai import contains, kids, strip, sugar, ty
from collections import namedtuple
from vlib import Broken

RULE = ('Abstract interpretation of every path of the thread pool, with the fields that its mutex protects '
        'forgotten whenever the mutex is acquired: a call enters the queue at most once per addition together '
        'with the promise of the returned future; a thread takes one call per critical section from the other '
        'end of a queue known to be non-empty, counts itself busy in that section, runs the call once without '
        'the mutex, sets its promise once and then counts itself idle once; TryAdd queues exactly when '
        'size(queue) + 1 ≤ size(threads) - busy is established in the same exclusive section; the wait '
        'conditions are implied by shutdown and by a non-empty queue; the destructor announces the shutdown '
        'before joining every thread without the mutex.')

PROBE = '''#include "base/thread_pool.hpp"
namespace principia::base::_thread_pool::internal {
template class ThreadPool<int>;
template class ThreadPool<void>;
}
'''
PUSH = {'push_back': 'back', 'emplace_back': 'back', 'push_front': 'front', 'emplace_front': 'front'}
POP = {'pop_front': 'front', 'pop_back': 'back'}

U = namedtuple('U', 'pushed popped inc call counted executed set shut pending')
U0 = U(None, 0, 0, None, False, False, False, False, False)


class Roles:
    def __init__(self, tu, rec):
        self.rec = rec
        elem = {}
        for i, d in tu.decl.items():
            if d['kind'] == 'CXXRecordDecl' and d.get('completeDefinition'):
                fs = [c for c in kids(d) if c['kind'] == 'FieldDecl']
                if any('promise<' in ty(f) for f in fs):
                    elem[d['name']] = fs
        self.queue = self.busy = self.shutdown = self.threads = self.mutex = None
        for f in kids(rec):
            if f['kind'] != 'FieldDecl':
                continue
            t = ty(f) + ' ' + sugar(f)
            if re.search(r'std::j?thread\b', t):
                self.threads = f['name']
            elif 'Mutex' in t or 'mutex' in t:
                self.mutex = f['name']
            elif re.search(r'\bbool\b', t):
                self.shutdown = f['name']
            elif re.search(r'\b(int|long|int64_t|int32_t|size_t)\b', t) and '<' not in t:
                self.busy = f['name']
            elif any(re.search(r'\b%s\b' % e, t) for e in elem):
                self.queue = f['name']
                e = next(e for e in elem if re.search(r'\b%s\b' % e, t))
                self.function = next(g['name'] for g in elem[e] if 'function<' in ty(g))
                self.promise = next(g['name'] for g in elem[e] if 'promise<' in ty(g))
        for k, v in vars(self).items():
            if v is None:
                raise Broken('no field of %s plays the role of %s' % (rec.get('name'), k))


class PoolInterp(conc.LockInterp):
    def __init__(self, tu, roles, c, label):
        super().__init__(tu)
        self.r, self.c, self.label = roles, c, label
        self.ends = set()
        self.worker_ids = set()
        self.conditions = []
        self.events = 0

    def F(self, name):
        return ('fld', ('this',), name)

    def shared_fields(self):
        return (self.r.queue, self.r.busy, self.r.shutdown)

    def bad(self, key, node, msg):
        self.c.violation('%s:%s' % (self.label, key), astlib.where(node) if node else self.label,
                         '%s: %s' % (self.label, msg))

    def up(self, st, **kw):
        self.set_user(st, self.user(st)._replace(**kw))

    def on_construct(self, t, node, args, st, fr):
        if 'promise<' in t and re.match(r'^(const )?std::promise<', t) and args == []:
            return [(self.sym('promise', node, fr), st)]
        return super().on_construct(t, node, args, st, fr)

    def condition(self, cnd, n, st, fr):
        # The waits of the pool, under the assumptions that must end them.
        for shut, empty, what in ((ai.TRUE, None, 'shutdown'), (ai.FALSE, False, 'a non-empty queue')):
            s = st.copy()
            s.store[self.F(self.r.shutdown)] = shut
            q = self.peek(self.F(self.r.queue), s, fr)
            if empty is not None:
                s.conds[('t', 'call', 'empty', q)] = empty
                s.conds[('t', '<', ('c', 0), ('t', 'call', 'size', q))] = True
            vals = []
            for v, s2 in super().condition(cnd, n, s, fr):
                t = self.truth(v, s2)
                vals.append(t)
            self.conditions.append((n, what, all(v is True for v in vals)))
        return super().condition(cnd, n, st, fr)

    def on_branch(self, term, truth, node, st, fr):
        # size(q) == 0 and friends decide empty(q).
        q = self.peek(self.F(self.r.queue), st, fr)
        size, empty = ('t', 'call', 'size', q), ('t', 'call', 'empty', q)
        if conc.implies(conc.fact(term, truth), {size: 1, None: -1}):
            st.conds[empty] = False
        if term == conc_eq(size) and truth is False:
            st.conds[empty] = False

    def on_call(self, name, ref, n, recv, args, st, fr):
        u = self.user(st)
        q = self.F(self.r.queue)
        self.events += 1
        if recv == q and (name in PUSH or name in ('insert', 'emplace', 'assign', 'resize', 'append_range')):
            self.c.obligation(1, '%s: %s at %s' % (self.label, name, astlib.where(n)))
            if name not in PUSH:
                self.bad('push', n, 'unsupported addition %s to the queue' % name)
                return None
            self.ends.add(('push', PUSH[name]))
            if not any(m == 'x' for p, m in self.locks(st)):
                self.bad('push-lock', n, 'a call is queued without holding the mutex exclusively')
            if u.pushed is not None:
                self.bad('push-twice', n, 'a call is queued twice on the same path')
            if len(args) == 1:
                pv = args[0][0]
                if args[0][1] is not None:
                    # Compose the object from its parts.
                    pv = ('t', 'obj') + tuple(self.peek(('fld', args[0][1], f), st, fr)
                                              for f in (self.r.function, self.r.promise))
                    fn, pr = pv[2:]
                else:
                    fn, pr = self.field_of(pv, self.r.function), self.field_of(pv, self.r.promise)
            elif len(args) == 2:
                fn, pr = args[0][0], args[1][0]
            else:
                fn, pr = ('s', '?'), ('s', '??', n['id'])
            el = ('pushed', n['id'], fr.ctx)
            st.store[('fld', el, self.r.function)] = fn
            st.store[('fld', el, self.r.promise)] = pr
            self.up(st, pushed=(fn, pr, tuple(sorted(map(repr, conc.facts(st)))), self.idle_fact(st)))
            old = self.peek(q, st, fr)
            self.forget(q, st, ('t', 'pushed', PUSH[name], old, ('loc', el)))
            return [(('loc', el), st)]
        if recv == q and name in ('back', 'front'):
            v = self.peek(q, st, fr)
            if v[0] == 't' and v[1] == 'pushed' and v[2] == name:
                return [(v[4], st)]
            return None
        if name == 'get_future' and recv is not None:
            v = self.peek(recv, st, fr)
            return [(('t', 'future', v), st)]
        if recv == q and name in POP:
            self.c.obligation(1, '%s: %s at %s' % (self.label, name, astlib.where(n)))
            self.ends.add(('pop', POP[name]))
            if not any(m == 'x' for p, m in self.locks(st)):
                self.bad('pop-lock', n, 'a call is dequeued without holding the mutex exclusively')
            v = self.peek(q, st, fr)
            if self.truth(('t', 'call', 'empty', v), st) is not False:
                self.bad('pop-empty', n, 'a call is dequeued although the queue may be empty')
            if u.call is not None:
                self.bad('pop-twice', n, 'a second call is dequeued before the first one was executed and accounted for')
            self.up(st, call=('t', 'call', POP[name], v), popped=u.popped + 1, executed=False, set=False,
                    counted=False)
            self.forget(q, st, ('t', 'popped', self.sym('pop', n, fr)))
            return [(('s', 'void'), st)]
        if recv == q and name in ('clear', 'erase', 'swap'):
            self.bad('drop', n, 'queued calls are discarded by %s' % name)
        if name == 'operator()' and recv is not None and recv[0] != 'val' or recv and recv[0] == 'val':
            fv = self.peek(recv, st, fr) if recv[0] != 'val' else recv[1]
            if fv[0] != 'lam' and 'function<' in (ty(kids(n)[1]) if len(kids(n)) > 1 else ''):
                self.execute(fv, n, st)
                return None
        if name in ('set_value', 'set_exception', 'set_value_at_thread_exit') and recv is not None:
            pv = self.peek(recv, st, fr)
            self.c.obligation(1, '%s: %s at %s' % (self.label, name, astlib.where(n)))
            if u.call is None or not contains(pv, u.call):
                self.bad('set-other', n, 'a promise is set that does not belong to the dequeued call')
            elif u.set:
                self.bad('set-twice', n, 'the promise of a call is set twice')
            elif not u.executed:
                self.bad('set-early', n, 'the promise of a call is set before the call was executed')
            elif args and not contains(args[0][0], u.call):
                self.bad('set-value', n, 'the promise is not set to the result of the call')
            self.up(st, set=True)
            return [(('s', 'void'), st)]
        if name in ('join',) and recv is not None:
            if self.locks(st):
                self.bad('join-lock', n, 'a thread is joined while holding the mutex')
            if not u.shut:
                self.bad('join-shutdown', n, 'a thread is joined before the shutdown was announced')
            self.up(st, pending=False)
            return [(('s', 'void'), st)]
        if name == 'bind' and args and args[0][0][0] == 'loc' and args[0][0][1][0] == 'var':
            self.worker_ids.add(args[0][0][1][1])
        return super().on_call(name, ref, n, recv, args, st, fr)

    def eval(self, n, st, fr):
        if n.get('kind') == 'UnaryOperator' and n.get('opcode') == '&':
            c = strip(kids(n)[0])
            if (c.get('referencedDecl') or {}).get('kind') == 'CXXMethodDecl':
                self.worker_ids.add(c['referencedDecl']['id'])
        return super().eval(n, st, fr)

    def execute(self, fv, n, st):
        u = self.user(st)
        self.c.obligation(1, '%s: execution at %s' % (self.label, astlib.where(n)))
        if u.call is None or not contains(fv, u.call):
            self.bad('exec-other', n, 'a function is executed that is not the one of the dequeued call')
        elif u.executed:
            self.bad('exec-twice', n, 'a dequeued call is executed twice')
        if self.locks(st):
            self.bad('exec-lock', n, 'a call is executed while holding the mutex')
        self.up(st, executed=True)

    def idle_fact(self, st):
        fr = ai.Frame(None, ('this',), ())
        q = self.peek(self.F(self.r.queue), st)
        b = self.peek(self.F(self.r.busy), st)
        t = self.peek(self.F(self.r.threads), st)
        want = {('t', 'call', 'size', t): 1, b: -1, ('t', 'call', 'size', q): -1, None: -1}
        if conc.implies(conc.facts(st), want):
            return True
        neg = {k: -v for k, v in want.items()}
        neg[None] -= 1
        return False if conc.implies(conc.facts(st), neg) else None

    def on_write(self, path, value, node, st, fr):
        u = self.user(st)
        if path == self.F(self.r.busy):
            old = self.peek(path, st, fr)
            d = conc.linear(('t', '-', value, old))
            d = {k: v for k, v in d.items() if v}
            self.c.obligation(1, '%s: busy count changed at %s' % (self.label, astlib.where(node)))
            if d == {None: 1}:
                if u.call is None and u.popped == 0:
                    # Counted before the extraction, in the same section.
                    pass
                self.up(st, inc=u.inc + 1, counted=True)
            elif d == {None: -1}:
                if u.call is None or not u.executed or not u.set:
                    self.bad('idle-early', node, 'a thread counts itself idle before its call is executed and its future satisfied')
                self.up(st, call=None, executed=False, set=False, counted=False)
            elif value != ('c', 0) or fr.fn is None:
                if 'CXXCtorInitializer' != node.get('kind'):
                    self.bad('busy', node, 'the count of busy threads does not change by one')
        if path == self.F(self.r.shutdown) and node.get('kind') != 'CXXCtorInitializer':
            if value == ai.TRUE:
                self.up(st, shut=True)
            elif self.truth(value, st) is not True:
                self.bad('unshut', node, 'the shutdown is cancelled')

    def released(self, path, mode, node, st, fr):
        u = self.user(st)
        if u.popped != u.inc:
            self.bad('busy-section', node, 'a call is dequeued and the thread is not counted as busy in the same critical section, or conversely')
        self.up(st, popped=0, inc=0)


def conc_eq(size):
    t, v = ai.Interp.norm(('t', '==', size, ('c', 0)), True)
    return t


def check(c):
    tu = ai.TU(PROBE, '_thread_pool')
    n = 0
    for rec in tu.records('ThreadPool'):
        r = Roles(tu, rec)
        ms = {m['id']: m for m in tu.methods(rec)}
        byname = {}
        for m in ms.values():
            byname.setdefault(m['name'], m)
        workers = set()
        need = {'Add', 'TryAdd', 'WaitUntilIdleFor', '~ThreadPool', 'ThreadPool'}
        if not need <= set(byname):
            raise Broken('missing methods: %s' % (need - set(byname)))
        targ = next((ty(k) for k in kids(rec) if k['kind'] == 'TemplateArgument'), '?')
        name = 'ThreadPool<%s>' % targ
        start = (frozenset(), U0)

        # Additions.
        for m in ('Add', 'TryAdd'):
            I = PoolInterp(tu, r, c, name + '::' + m)
            res = I.run(byname[m], start)
            some = none = 0
            fn = next(k['name'] for k in kids(byname[m]) if k['kind'] == 'ParmVarDecl')
            for v, s in res:
                u = s.mon[1]
                n += 1
                if s.mon[0]:
                    I.bad('leak', byname[m], 'returns with the mutex held')
                if u.pushed:
                    some += 1
                    fnv, pr, _, idle = u.pushed
                    fut = ('t', 'future', pr)
                    fv = v
                    if m == 'TryAdd':
                        fv = v[1] if v[0] == 'some' else v
                        if idle is not True:
                            I.bad('try-busy', byname[m], 'queues a call without having established, in the same '
                                  'exclusive section, that size(queue) + 1 ≤ size(threads) - busy')
                    if fnv != ('s', 'param', fn):
                        I.bad('function', byname[m], 'the queued function is not the one that was given')
                    if fv != fut:
                        I.bad('future', byname[m], 'the returned future is not that of the queued call')
                else:
                    none += 1
                    if m == 'Add':
                        I.bad('lost', byname[m], 'a path does not queue the call')
                    elif v != ('none',):
                        I.bad('ghost', byname[m], 'returns a future although the call was not queued')
            if m == 'TryAdd':
                I2 = RefusalInterp(tu, r, c, name + '::TryAdd')
                for v, s in I2.run(byname[m], (frozenset(), U0)):
                    if v == ('none',) and I2.last(s) is not False:
                        I.bad('refuse', byname[m], 'refuses a call although it did not establish that no thread is idle')
            if not some or (m == 'TryAdd' and not none):
                raise Broken('%s: no path of each kind' % m)
            ends = I.ends
        # Waiting.
        I = RefusalInterp(tu, r, c, name + '::WaitUntilIdleFor')
        for v, s in I.run(byname['WaitUntilIdleFor'], start):
            n += 1
            c.obligation(1)
            t = I.truth(v, s)
            if t is None:
                pos, neg = s.copy(), s.copy()
                I.assume(v, True, byname['WaitUntilIdleFor'], pos, ai.Frame(None, ('this',), ()))
                I.assume(v, False, byname['WaitUntilIdleFor'], neg, ai.Frame(None, ('this',), ()))
                ok = I.idle_fact(pos) is True and I.idle_fact(neg) is False
            else:
                ok = I.last(s) is t or I.idle_fact(s) is t
            if not ok:
                I.bad('idle', byname['WaitUntilIdleFor'], 'the result is not equivalent to size(queue) + 1 ≤ size(threads) - busy')
        # Construction starts the workers.
        I = PoolInterp(tu, r, c, name + '::ThreadPool')
        I.run(byname['ThreadPool'], start)
        workers = {tu.canon(w) for w in I.worker_ids}
        for v in getattr(I, 'lambdas', {}).values():
            if v[1] is not None:
                for x in astlib.walk(v[1]):
                    if x.get('kind') == 'MemberExpr' and x.get('referencedMemberDecl') in tu.decl:
                        workers.add(tu.canon(x['referencedMemberDecl']))
        wk = [m for i, m in ms.items() if tu.canon(i) in workers]
        if not wk:
            raise Broken('the function executed by the threads was not found')
        for w in wk:
            I = PoolInterp(tu, r, c, name + '::' + w['name'])
            I.run(w, start)
            for v, s in I.run(w, start):
                n += 1
                u = s.mon[1]
                if u.call is not None:
                    I.bad('abandoned', w, 'a thread terminates with a dequeued call that is not accounted for')
                sh = [t for k, t in s.conds.items() if k[0] == 's' and k[1] == 'cs' and k[-1] == r.shutdown]
                if True not in sh:
                    I.bad('exit', w, 'a thread may terminate although the pool is not shutting down')
            if not any(e[0] == 'pop' for e in I.ends):
                raise Broken('no extraction found in %s' % w['name'])
            if {e[1] for e in I.ends if e[0] == 'pop'} & {e[1] for e in ends if e[0] == 'push'}:
                I.bad('order', w, 'calls are not started in the order in which they were added')
            if not I.conditions:
                raise Broken('no wait condition found')
            for node, what, ok in I.conditions:
                c.obligation(1)
                if not ok:
                    I.bad('wait', node, 'the wait of the threads is not ended by ' + what)
        # Destruction.
        I = JoinInterp(tu, r, c, name + '::~ThreadPool')
        for v, s in I.run(byname['~ThreadPool'], start):
            n += 1
            if not s.mon[1].shut:
                I.bad('shutdown', byname['~ThreadPool'], 'the shutdown is not announced')
            if s.mon[1].pending:
                I.bad('join', byname['~ThreadPool'], 'a thread is not joined')
        if not I.joins and not re.search('jthread', sugar(next(f for f in kids(rec) if f.get('name') == r.threads))):
            I.bad('nojoin', byname['~ThreadPool'], 'the threads are not joined')
    c.require('paths', n, 10)


class RefusalInterp(PoolInterp):
    """Remembers what was last established about idleness before the mutex was
    released."""

    def released(self, path, mode, node, st, fr):
        super().released(path, mode, node, st, fr)
        self.up(st, pending=self.idle_fact(st))

    def last(self, st):
        return self.user(st).pending


class JoinInterp(PoolInterp):
    joins = 0

    def on_call(self, name, ref, n, recv, args, st, fr):
        if name == 'operator*' and recv is not None and 'thread' in ty(n) + sugar(n):
            if self.user(st).pending:
                self.bad('join', n, 'a thread is skipped')
            self.up(st, pending=True)
        if name == 'joinable':
            s2 = st.copy()
            self.set_user(s2, self.user(s2)._replace(pending=False))
            return [(ai.TRUE, st), (ai.FALSE, s2)]
        if name == 'join':
            self.joins += 1
        return super().on_call(name, ref, n, recv, args, st, fr)


vlib.main(check, 'C04', 'other', RULE)
