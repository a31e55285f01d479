#!/usr/bin/env python3
import os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import ai, astlib, conc, vlib
from ai import contains, kids, strip, sugar, ty, FALSE, TRUE
from collections import namedtuple
from vlib import Broken

RULE = ('Abstract interpretation of every path of Bundle, with atomic reads nondeterministic and the status forgotten '
        'whenever a mutex is acquired: a worker is counted before its thread is created; its thread executes the task '
        'exactly once, records an erroneous status under the mutex without replacing an earlier one, and thereafter '
        'decrements the count once and notifies exactly when that very decrement yields zero; a join gives up its own '
        'count exactly once, waits unless that yields zero, within the given bound, records the expiration of that '
        'bound, then joins every thread without holding a mutex that a worker acquires, and returns the status that it '
        'reads under the mutex afterwards.')

PROBE = '#include "base/bundle.cpp"\n'
U = namedtuple('U', 'ran dec incs updated iter pending waited deadline valid notified')
U0 = U(0, None, 0, False, False, False, None, False, None, 0)


class BundleInterp(conc.LockInterp):
    def __init__(self, tu, c, label, roles):
        super().__init__(tu)
        self.c, self.label, self.r = c, label, roles
        self.workers = []
        self.taken = set()
        self.joinlocks = set()

    def shared_fields(self):
        return (self.r['status'],)

    def F(self, role):
        return ('fld', ('this',), self.r[role])

    def bad(self, key, node, msg):
        self.c.violation('%s:%s' % (self.label, key), astlib.where(node), '%s: %s' % (self.label, msg))

    def up(self, st, **kw):
        self.set_user(st, self.user(st)._replace(**kw))

    def pre_acquire(self, path, mode, node, st, fr):
        self.taken.add(path)
        if any(p == path for p, m in self.locks(st)):
            self.bad('relock', node, 'a mutex is acquired twice')

    def on_read(self, path, node, st, fr):
        if path == self.F('status') and node.get('kind') != 'CXXCtorInitializer':
            self.seen_status(node, st, fr)

    def seen_status(self, node, st, fr):
        if not self.locks(st):
            self.bad('status-lock', node, 'the status is read without a mutex')
        if self.user(st).iter:
            self.up(st, valid=self.peek(self.F('status'), st, fr))

    def on_construct(self, t, node, args, st, fr):
        if args and args[0][1] == self.F('status'):
            self.seen_status(node, st, fr)
        return super().on_construct(t, node, args, st, fr)

    def guard_status(self, node, st):
        self.c.obligation(1, '%s: status changed at %s' % (self.label, astlib.where(node)))
        if not any(m == 'x' for p, m in self.locks(st)):
            self.bad('status-lock', node, 'the status is changed without holding a mutex exclusively')

    def on_write(self, path, value, node, st, fr):
        if path == self.F('status') and node.get('kind') != 'CXXCtorInitializer':
            self.guard_status(node, st)
            u = self.user(st)
            if value[0] == 't' and 'DeadlineExceededError' in repr(value):
                self.up(st, deadline=True)
                return
            old = self.peek(path, st, fr)
            if self.truth(('t', 'call', 'ok', old), st) is not True:
                self.bad('first', node, 'the status replaces an earlier error')
            self.up(st, updated=True)

    def on_call(self, name, ref, n, recv, args, st, fr):
        u = self.user(st)
        cnt = self.F('count')
        if recv == cnt:
            d = None
            if name in ('operator--', 'operator++', 'operator+=', 'operator-=', 'fetch_sub', 'fetch_add'):
                k = args[0][0] if args and (name in ('operator+=', 'operator-=') or name.startswith('fetch')) else ('c', 1)
                if k[0] != 'c':
                    raise Broken('the change of the count is not a constant')
                d = k[1] * (-1 if name in ('operator--', 'operator-=', 'fetch_sub') else 1)
                after = ('s', 'count', n['id'], fr.ctx)
                st.conds = {t: b for t, b in st.conds.items() if not contains(t, after)}
                self.c.obligation(1, '%s: count changed at %s' % (self.label, astlib.where(n)))
                post = name.startswith('fetch') or (name in ('operator--', 'operator++') and len(args) == 1)
                if d == -1:
                    if u.dec is not None:
                        self.bad('dec-twice', n, 'the count is decremented twice')
                    if self.role == 'worker' and not u.ran:
                        self.bad('dec-early', n, 'a worker gives up its count before it executes its task')
                    self.up(st, dec=after)
                elif d == 1:
                    self.up(st, incs=u.incs + 1)
                else:
                    self.bad('count', n, 'the count does not change by one')
                return [(('t', '-', after, ('c', d)) if post else after, st)]
            if name in ('operator=', 'store', 'exchange', 'compare_exchange_strong', 'compare_exchange_weak'):
                self.bad('count', n, 'the count is overwritten')
            return [(('s', 'load', n['id'], fr.ctx), st)]
        if recv is not None and recv[0] == 'fld' and recv[1] == ('this',) and \
                (name.startswith('operator ') or name == 'load') and recv[2] in self.r['atomics']:
            v = ('s', 'load', n['id'], fr.ctx)
            st.conds = {t: b for t, b in st.conds.items() if not contains(t, v)}
            return [(v, st)]
        if recv is not None and recv[0] == 'fld' and recv[2] in self.r['atomics'] and name in ('operator=', 'store'):
            return [(args[0][0], st)]
        if name == 'FromChrono':
            return [(('t', 'chrono', args[0][0]), st)]
        if name == 'DeadlineExceededError':
            return [(('t', 'call', name), st)]
        if recv == self.F('done'):
            self.c.obligation(1, '%s: %s at %s' % (self.label, name, astlib.where(n)))
            if name == 'Notify':
                if u.dec is None or not self.zero(u.dec, st):
                    self.bad('notify', n, 'the joining thread is notified by a worker whose own decrement did not yield zero')
                self.up(st, notified=u.notified + 1)
                return [(('s', 'void'), st)]
            if name.startswith('WaitForNotification'):
                if u.dec is None:
                    self.bad('wait-early', n, 'a join waits before it gives up its count')
                if self.locks(st):
                    self.bad('wait-lock', n, 'a join waits while holding a mutex')
                if args:
                    if self.param is None or not contains(args[0][0], ('s', 'param', self.param)):
                        self.bad('bound', n, 'the wait is not bounded by the given argument')
                elif self.param is not None:
                    self.bad('bound', n, 'the wait is not bounded')
                s2 = st.copy()
                self.up(st, waited=True)
                if not args:
                    return [(('s', 'void'), st)]
                self.set_user(s2, self.user(s2)._replace(waited=False))
                return [(TRUE, st), (FALSE, s2)]
        if recv == self.F('status'):
            if name == 'Update':
                self.guard_status(n, st)
                self.up(st, updated=True)
                # An Update with the deadline does not count as a report: it is dropped if a task had already failed.
                return [(('s', 'void'), st)]
            if not (name == 'operator='):
                self.seen_status(n, st, fr)
        if recv == self.F('workers'):
            if name in ('emplace_back', 'emplace_front', 'push_back', 'push_front', 'emplace'):
                self.c.obligation(1, '%s: thread created at %s' % (self.label, astlib.where(n)))
                if u.incs != 1:
                    self.bad('add-count', n, 'a thread is created before it is counted exactly once')
                if not any(m == 'x' for p, m in self.locks(st)):
                    self.bad('add-lock', n, 'a thread is added without holding the mutex exclusively')
                self.workers.append([v for v, p in args])
                return [(('loc', ('elem', recv, ('c', 0))), st)] if want(n) else [(('s', 'void'), st)]
            if name in ('begin', 'cbegin', 'empty', 'front', 'back'):
                self.up(st, iter=True)
            if name in ('clear', 'erase', 'pop_front', 'pop_back') and not u.iter:
                self.bad('drop', n, 'threads are discarded without being joined')
        if name == 'operator*' and recv is not None and 'thread' in ty(n) + sugar(n):
            if u.pending:
                self.bad('skip', n, 'a thread is skipped')
            self.up(st, pending=True)
        if name == 'join':
            self.c.obligation(1, '%s: join at %s' % (self.label, astlib.where(n)))
            self.up(st, pending=False)
            self.joinlocks |= {p for p, m in self.locks(st)}
            self.joined = True
            return [(('s', 'void'), st)]
        if name == 'joinable':
            s2 = st.copy()
            self.set_user(s2, u._replace(pending=False))
            return [(TRUE, st), (FALSE, s2)]
        if name == 'detach':
            self.bad('detach', n, 'a thread is detached')
        if (name == 'operator()' and recv is not None and recv[0] != 'val') or (recv and recv[0] == 'val') or name == 'invoke':
            t = ty(kids(n)[1]) if len(kids(n)) > 1 else ''
            fv = self.peek(recv, st, fr) if recv and recv[0] != 'val' else None
            if 'function<' in t and (fv is None or fv[0] != 'lam'):
                self.c.obligation(1, '%s: task executed at %s' % (self.label, astlib.where(n)))
                if self.locks(st):
                    self.bad('task-lock', n, 'the task is executed while holding a mutex')
                if u.dec is not None:
                    self.bad('dec-early', n, 'a worker gives up its count before it executes its task')
                self.up(st, ran=u.ran + 1)
                return [(('s', 'task-status'), st)]
        return super().on_call(name, ref, n, recv, args, st, fr)

    def zero(self, dec, st):
        if conc.is_zero(st, dec) is True:
            return True
        # The count is never negative.
        return conc.implies(conc.facts(st), {dec: -1, None: 0})

    def nonzero(self, dec, st):
        if conc.is_zero(st, dec) is False:
            return True
        return conc.implies(conc.facts(st), {dec: 1, None: -1})


def want(n):
    return n.get('valueCategory') == 'lvalue'


def check(c):
    tu = ai.TU(PROBE, '_bundle')
    recs = list(tu.records('Bundle'))
    if len(recs) != 1:
        raise Broken('Bundle not found')
    rec = recs[0]
    fs = [f for f in kids(rec) if f['kind'] == 'FieldDecl']
    desc = lambda f: ty(f) + ' ' + sugar(f)
    r = {'atomics': [f['name'] for f in fs if 'atomic' in desc(f)]}

    def role(k, rx):
        m = [f['name'] for f in fs if re.search(rx, desc(f))]
        if not m:
            raise Broken('no field of Bundle plays the role of %s' % k)
        r[k] = m[0]
    role('status', r'\bStatus\b')
    role('done', r'Notification')
    role('workers', r'j?thread')
    role('count', r'atomic_int\b|atomic<(int|long|std::int)|atomic_int')
    ms = {}
    for m in tu.methods(rec):
        ms.setdefault(m['name'], m)
    joins = [m for m in ms.values() if m['name'].startswith('Join') and 'Status' in sugar(m).split('(')[0]]
    if 'Add' not in ms or len(joins) < 3:
        raise Broken('methods of Bundle not found')
    start = (frozenset(), U0)
    paths = 0

    def make(label, role, param=None):
        I = BundleInterp(tu, c, 'Bundle::' + label, r)
        I.role, I.param, I.joined = role, param, False
        return I

    # Initially, the bundle has its own count.
    init = next(f for f in fs if f['name'] == r['count'])
    lits = [x['value'] for x in astlib.walk(init) if x.get('kind') == 'IntegerLiteral']
    c.obligation(1, 'initial count')
    if lits != ['1']:
        c.violation('Bundle:initial', astlib.where(init), 'Bundle: the count does not initially include the joining thread')

    # Add.
    I = make('Add', 'add')
    prm = next(k['name'] for k in kids(ms['Add']) if k['kind'] == 'ParmVarDecl')
    for v, s in I.run(ms['Add'], start):
        paths += 1
        if s.mon[0]:
            I.bad('leak', ms['Add'], 'returns with a mutex held')
        if s.mon[1].incs != 1:
            I.bad('add-count', ms['Add'], 'a path does not count the worker exactly once')
    if not I.workers:
        raise Broken('Bundle::Add does not create a thread')
    worker_locks = set()
    for w in I.workers:
        if w[0][0] == 'lam':
            fn = I.lambdas[w[0][1]][1]
        else:
            fid = w[0][1][1] if w[0][0] == 'loc' else w[0][1]
            fn = tu.find_body(fid)
        if fn is None:
            raise Broken('the function of the workers is not understood')
        J = make(fn.get('name', '') if fn.get('name') != 'operator()' else 'Add closure', 'worker')
        J.lambdas = getattr(I, 'lambdas', {})
        if w[0][0] != 'lam' and ('s', 'param', prm) not in w and not any(contains(x, ('s', 'param', prm)) for x in w):
            I.bad('add-task', ms['Add'], 'the task is not passed to the thread')
        n = 0
        for v, s in J.run(fn, start):
            paths += 1
            n += 1
            c.obligation(1)
            u = s.mon[1]
            if s.mon[0]:
                J.bad('leak', fn, 'returns with a mutex held')
            if u.ran != 1:
                J.bad('task', fn, 'the task is executed %d times on a path' % u.ran)
            ok = [b for t, b in s.conds.items() if t[0] == 't' and t[1:3] == ('call', 'ok') and contains(t, ('s', 'task-status'))]
            already = [t for t, b in s.conds.items() if t[0] == 't' and t[1:3] == ('call', 'ok') and b is False
                       and t[3][0] == 's' and t[3][1] == 'cs']
            if not u.updated and ok != [True] and not already:
                J.bad('error', fn, 'the status of a task that may have failed is not recorded')
            if u.dec is None:
                J.bad('dec', fn, 'a worker does not give up its count')
            elif not u.notified and not J.nonzero(u.dec, s):
                J.bad('lost', fn, 'a worker whose decrement yields zero does not notify the joining thread')
            elif u.notified > 1:
                J.bad('notify-twice', fn, 'the joining thread is notified twice')
        if not n:
            raise Broken('no path through the function of the workers')
        worker_locks |= J.taken
    # Joins.
    for m in joins:
        prms = [k['name'] for k in kids(m) if k['kind'] == 'ParmVarDecl']
        J = make(m['name'], 'join', prms[0] if prms else None)
        for v, s in J.run(m, start):
            paths += 1
            c.obligation(1)
            u = s.mon[1]
            if s.mon[0]:
                J.bad('leak', m, 'returns with a mutex held')
            if u.dec is None:
                J.bad('dec', m, 'a join does not give up its count')
            elif u.waited is None and not J.zero(u.dec, s):
                J.bad('nowait', m, 'a join does not wait although tasks may be active')
            if not u.iter:
                J.bad('join', m, 'the threads are not joined')
            if u.pending:
                J.bad('skip', m, 'a thread is not joined')
            expired = u.waited is False
            if expired and not u.deadline and 'DeadlineExceededError' not in repr(v):
                J.bad('deadline', m, 'the expiration of the bound is not reported')
            if not expired and u.deadline:
                J.bad('deadline', m, 'the expiration of the bound is reported although the tasks completed in time')
            if u.valid is None or (v != u.valid and 'DeadlineExceededError' not in repr(v)):
                J.bad('result', m, 'the result is not the status read after the threads were joined')
        if not J.joined:
            J.bad('join', m, 'the threads are not joined')
        if J.joinlocks & worker_locks:
            J.bad('deadlock', m, 'the threads are joined while holding a mutex that they acquire')
    c.require('paths', paths, 8)
    c.require('joins', len(joins), 3)


vlib.main(check, 'C06', 'other', RULE)
