#!/usr/bin/env python3
import os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import ai, astlib, conc, vlib
from ai import contains, kids, strip, sugar, ty, FALSE, TRUE
from collections import namedtuple
from vlib import Broken

RULE = ('Abstract interpretation of every path of the stoppable and recurring threads, with the channels forgotten '
        'whenever a mutex is acquired and the stop token tested nondeterministically: the stop token of a thread is '
        'installed before its function runs; an input is extracted and removed in one exclusive section, the action '
        'runs on it once without any mutex, unless a stop was requested; its value is published, under the mutex, iff '
        'it is not an error and no stop was requested; two executions are separated by a wait until a time which is '
        'at least the period after the wait that precedes the first of them; the thread terminates only if stopped '
        'and tests that on every cycle; Start is idempotent, Stop and Restart stop and join the thread that is '
        'running before starting another one, and so does the destruction, before the members are destroyed.')

PROBE = '''#include "base/recurring_thread.hpp"
namespace principia::base::_recurring_thread::internal {
struct ProbeIn { int i; };
struct ProbeOut { int o; };
template class RecurringThread<ProbeIn, ProbeOut>;
template class RecurringThread<ProbeIn>;
inline auto probe_thread_ = principia::base::_stoppable_thread::MakeStoppableThread(
    [](int const a, double const b) {}, 3, 4.0);
}
'''

# stop: whether a stop was observed; result: of the action; now: terms of the
# clock read since the last wait.
U = namedtuple('U', 'stop taken executed result after published slept tested runs started')
U0 = U(False, None, 0, None, None, None, True, False, 0, ())
STOPPED = ('t', 'default', 'std::jthread')


class RecInterp(conc.LockInterp):
    def __init__(self, tu, c, label, fields=()):
        super().__init__(tu)
        self.c, self.label, self.shared = c, label, tuple(fields)
        self.action = self.inp = self.out = self.thread = None
        self.hide = None        # id of the virtual method
        self.closures = []
        self.guards = {}
        self.sections = 0

    def bad(self, key, node, msg):
        self.c.violation('%s:%s' % (self.label, key), astlib.where(node) if node else self.label,
                         '%s: %s' % (self.label, msg))

    def up(self, st, **kw):
        self.set_user(st, self.user(st)._replace(**kw))

    def shared_fields(self):
        return self.shared

    def pre_acquire(self, path, mode, node, st, fr):
        self.sections += 1
        if any(p == path for p, m in self.locks(st)):
            self.bad('relock', node, 'a mutex is acquired twice')

    def inline(self, decl, node, fr):
        return not (self.hide and self.tu.canon(decl['id']) in self.hide)

    # -- accesses to the channels
    def access(self, path, node, st, write):
        if path[0] == 'fld' and path[1] == ('this',) and path[2] in (self.inp, self.out):
            if node.get('kind') == 'CXXCtorInitializer':
                return
            self.c.obligation(1, '%s: %s of %s at %s' % (
                self.label, 'write' if write else 'read', path[2], astlib.where(node)))
            ls = frozenset(p for p, m in self.locks(st) if m == 'x' or not write)
            if not ls:
                self.bad('unguarded:' + path[2], node, 'the channel %s is %s without a mutex' % (
                    path[2], 'written' if write else 'read'))
            g = self.guards.setdefault(path[2], set(ls))
            g &= ls

    def on_read(self, path, node, st, fr):
        self.access(path, node, st, False)

    def on_write(self, path, value, node, st, fr):
        self.access(path, node, st, True)
        u = self.user(st)
        if path == ('fld', ('this',), self.thread) and node.get('kind') != 'CXXCtorInitializer':
            self.c.obligation(1)
            if not any(m == 'x' for p, m in self.locks(st)):
                self.bad('thread-lock', node, 'the thread is changed without the mutex')
            old = self.peek(path, st, fr)
            if value[0] == 't' and value[1] == 'thread' and not self.idle(old, st):
                self.bad('overlap', node, 'a thread replaces one that may not be stopped')
        if path == ('fld', ('this',), self.out) and node.get('kind') != 'CXXCtorInitializer':
            if value[0] == 'some' and u.result is not None:
                self.up(st, published=value[1])

    def idle(self, v, st):
        """The thread `v` is known not to run."""
        if v[0] == 't' and v[1] == 'default':
            return True
        if v[0] == 't' and v[1] == 'joined':
            return True
        return self.truth(('t', 'call', 'joinable', v), st) is False

    def released(self, path, mode, node, st, fr):
        u = self.user(st)
        if self.inp and u.taken and u.executed == 0:
            v = self.peek(('fld', ('this',), self.inp), st, fr)
            if v != ('none',) and not (v[0] == 's' and self.truth(('t', 'has', v), st) is False):
                if v == u.taken or contains(v, u.taken):
                    self.bad('remain', node, 'an input is left in the channel after it was extracted')

    def on_branch(self, term, truth, node, st, fr):
        u = self.user(st)
        if term[0] == 't' and term[1] == 'has' and term[2][0] == 's' and term[2][1] == 'cs' and \
                term[2][-1] == self.inp and truth:
            self.up(st, taken=term[2])

    def on_call(self, name, ref, n, recv, args, st, fr):
        u = self.user(st)
        if name == 'stop_requested':
            self.up(st, tested=True)
            if u.stop:
                return [(TRUE, st)]
            s2 = st.copy()
            self.set_user(s2, self.user(s2)._replace(stop=True))
            self.set_user(st, self.user(st)._replace(after=u.result))
            return [(FALSE, st), (TRUE, s2)]
        if self.hide and ref.get('id') and self.tu.canon(ref['id']) in self.hide:
            # An execution of the action.
            self.c.obligation(1, '%s: execution at %s' % (self.label, astlib.where(n)))
            if self.locks(st):
                self.bad('action-lock', n, 'the action is run while holding a mutex')
            if not u.slept:
                self.bad('period', n, 'the action is run again without waiting for the period to elapse')
            if u.runs and not u.tested:
                self.bad('untested', n, 'the action is run again without testing whether the thread was stopped')
            self.up(st, slept=False, tested=False, runs=1)
            return [(self.sym('status', n, fr), st)]
        if name == 'now':
            v = ('s', 'now', n['id'], fr.ctx, u.slept)
            return [(v, st)]
        if name in ('sleep_until', 'sleep_for'):
            self.c.obligation(1, '%s: wait at %s' % (self.label, astlib.where(n)))
            if self.locks(st):
                self.bad('sleep-lock', n, 'the thread waits while holding a mutex')
            if u.runs and self.waits(name, args[0][0]):
                self.up(st, slept=True)
            # Times that were read earlier are in the past.
            for p, v in list(st.store.items()):
                if contains_now(v):
                    st.store[p] = ('t', 'stale', drop_now(v))
            return [(('s', 'void'), st)]
        if recv is not None and self.action and name == 'operator()' and recv == ('fld', ('this',), self.action):
            self.act(n, args, st, fr)
            r = ('s', 'result', n['id'])
            self.up(st, executed=self.user(st).executed + 1, result=r, after=None)
            return [(r, st)]
        if name == 'invoke' and args and args[0][1] == ('fld', ('this',), self.action or '?'):
            self.act(n, args[1:], st, fr)
            r = ('s', 'result', n['id'])
            self.up(st, executed=self.user(st).executed + 1, result=r, after=None)
            return [(r, st)]
        if name == 'MakeStoppableThread' and args:
            self.closures.append(args[0][0])
            self.c.obligation(1, '%s: thread started at %s' % (self.label, astlib.where(n)))
            cur = self.peek(('fld', ('this',), self.thread), st, fr) if self.thread else None
            if cur is not None and not self.idle(cur, st):
                self.bad('overlap', n, 'a thread is started before the previous one is known to be stopped')
            if not any(m == 'x' for p, m in self.locks(st)):
                self.bad('thread-lock', n, 'a thread is started without the mutex')
            return [(('t', 'thread', n['id']), st)]
        if name == 'join' and recv == ('fld', ('this',), self.thread or '?'):
            if not self.user(st).stop and ('req',) not in self.user(st).started:
                self.bad('join-unstopped', n, 'the thread is joined before it is requested to stop')
            st.store[recv] = ('t', 'joined')
            return [(('s', 'void'), st)]
        if name == 'request_stop' and recv == ('fld', ('this',), self.thread or '?'):
            self.up(st, started=self.user(st).started + (('req',),))
            return [(TRUE, st)]
        return super().on_call(name, ref, n, recv, args, st, fr)

    def waits(self, name, v):
        """The wait is at least of a period after the end of the last wait."""
        if name == 'sleep_for':
            return v == ('s', 'init', ('fld', ('this',), self.period))
        v = linear(v)
        p = ('s', 'init', ('fld', ('this',), self.period))
        nows = [k for k in v if k is not None and k[0] == 's' and k[1] == 'now']
        rest = [k for k in v if k is not None and k not in nows]
        return len(nows) == 1 and v[nows[0]] == 1 and rest == [p] and v[p] >= 1

    def act(self, n, args, st, fr):
        u = self.user(st)
        self.c.obligation(1, '%s: action at %s' % (self.label, astlib.where(n)))
        if self.locks(st):
            self.bad('action-lock', n, 'the action is run while holding a mutex')
        if u.executed:
            self.bad('action-twice', n, 'the action is run twice')
        if u.taken is None or not any(contains(v, u.taken) for v, p in args):
            self.bad('action-input', n, 'the action is not run on the input that was extracted')
        v = self.peek(('fld', ('this',), self.inp), st, fr)
        if u.taken is not None and contains(v, u.taken):
            self.bad('remain', n, 'the action is run while its input is still in the channel')


def contains_now(t):
    if not isinstance(t, tuple):
        return False
    if len(t) > 1 and t[0] == 's' and t[1] == 'now':
        return True
    return any(contains_now(x) for x in t)


def drop_now(t):
    if isinstance(t, tuple):
        if len(t) > 1 and t[0] == 's' and t[1] == 'now':
            return ('s', 'past')
        return tuple(drop_now(x) for x in t)
    return t


def linear(v):
    def conv(t):
        if t[0] == 't' and t[1] in ('call',) and t[2] in ('operator+', 'operator-') and len(t) == 5:
            return ('t', t[2][8:], conv(t[3]), conv(t[4]))
        if t[0] == 't' and t[1] == 'init' and len(t) == 4:
            return conv(t[3])
        if t[0] == 't' and t[1] in '+-*' and len(t) == 4:
            return ('t', t[1], conv(t[2]), conv(t[3]))
        return t
    return conc.linear(conv(v))


def fields(rec):
    return [f for f in kids(rec) if f['kind'] == 'FieldDecl']


def pure_virtuals(tu, rec):
    return [m for m in kids(rec) if m['kind'] == 'CXXMethodDecl' and m.get('pure')]


def is_truth(I, st, term):
    return I.truth(term, st)


def check(c):
    tu = ai.TU(PROBE, '_thread')
    start = (frozenset(), U0)
    base = [r for r in tu.records('BaseRecurringThread')]
    if not base:
        raise Broken('BaseRecurringThread not found')
    base = base[0]
    bm = {}
    for m in tu.methods(base):
        bm.setdefault(m['name'], m)
    thread = next((f['name'] for f in fields(base) if re.search('j?thread', ty(f))), None)
    period = next((f['name'] for f in fields(base) if 'duration' in ty(f) or 'milliseconds' in ty(f)), None)
    pv = pure_virtuals(tu, base)
    if not (thread and period and len(pv) == 1 and {'Start', 'Stop', 'Restart'} <= set(bm)):
        raise Broken('the structure of BaseRecurringThread is not understood')
    hide = {tu.canon(pv[0]['id'])}
    paths = 0
    T = ('fld', ('this',), thread)

    def make(label):
        I = RecInterp(tu, c, label, [thread])
        I.thread, I.period, I.hide = thread, period, hide
        return I

    # Control of the thread.
    bodies = []
    for m in ('Start', 'Stop', 'Restart'):
        I = make('BaseRecurringThread::' + m)
        started = False
        for v, s in I.run(bm[m], start):
            paths += 1
            c.obligation(1)
            if s.mon[0]:
                I.bad('leak', bm[m], 'returns with the mutex held')
            t = I.peek(T, s)
            if I.sections != 1 and m != 'Stop':
                pass
            if m == 'Stop' and not I.idle(t, s):
                I.bad('stop', bm[m], 'a path does not stop and join the thread')
            if m == 'Restart' and not (t[0] == 't' and t[1] == 'thread'):
                I.bad('restart', bm[m], 'a path does not start a thread')
            if m == 'Start':
                if t[0] == 't' and t[1] == 'thread':
                    started = True
                elif t[0] == 't' and t[1] in ('default', 'joined'):
                    I.bad('start', bm[m], 'a thread that was started is stopped')
                elif I.truth(('t', 'call', 'joinable', t), s) is not True:
                    I.bad('start', bm[m], 'a path does not start a thread although none may be running')
        if m == 'Start' and not started:
            I.bad('start', bm[m], 'no path starts a thread')
        if m == 'Restart' and I.sections > 1:
            I.bad('atomic', bm[m], 'the mutex is released between the stop and the start')
        bodies += [(I, l, m) for l in I.closures]
    # The function of the threads.
    for I0, l, m in bodies:
        if l[0] != 'lam':
            raise Broken('the function of the thread is not a closure')
        I = make('the thread of BaseRecurringThread::' + m)
        I.lambdas = I0.lambdas
        op = I.lambdas[l[1]][1]
        n = 0
        for v, s in I.run(op, start):
            paths += 1
            c.obligation(1)
            if not s.mon[1].stop:
                I.bad('exit', op, 'the thread may terminate although it was not stopped')
            n += 1
        if not n:
            I.bad('unstoppable', op, 'the thread never observes that it was stopped')
    # The channels.
    count = 0
    for rec in tu.records('RecurringThread'):
        count += 1
        ins = next((f['name'] for f in fields(rec) if 'optional<' in ty(f) and 'ProbeIn' in ty(f)), None)
        outs = next((f['name'] for f in fields(rec) if 'optional<' in ty(f) and 'ProbeOut' in ty(f)), None)
        act = next((f['name'] for f in fields(rec) if 'function<' in ty(f)), None)
        label = 'RecurringThread<ProbeIn, %s>' % ('ProbeOut' if outs else 'void')
        if not ins or not act:
            raise Broken('the structure of %s is not understood' % label)
        ms = {}
        for m in tu.methods(rec):
            ms.setdefault(m['name'], m)
        run = [m for m in ms.values() if m['name'] == pv[0]['name']]
        if not run:
            raise Broken('no override of %s' % pv[0]['name'])
        guards = {}

        def channels(name):
            I = RecInterp(tu, c, label + '::' + name, [x for x in (ins, outs) if x])
            I.inp, I.out, I.action, I.thread, I.period = ins, outs, act, thread, period
            I.guards = guards
            return I
        IN, OUT = ('fld', ('this',), ins), ('fld', ('this',), outs)
        # Put.
        I = channels('Put')
        prm = next(k['name'] for k in kids(ms['Put']) if k['kind'] == 'ParmVarDecl')
        for v, s in I.run(ms['Put'], start):
            paths += 1
            if s.mon[0]:
                I.bad('leak', ms['Put'], 'returns with the mutex held')
            if I.peek(IN, s) != ('some', ('s', 'param', prm)):
                I.bad('put', ms['Put'], 'a path does not overwrite the input channel with the given value')
            if outs and OUT in s.store and s.store[OUT][0] != 's':
                I.bad('put-output', ms['Put'], 'the output channel is changed')
        # Get.
        if outs:
            I = channels('Get')
            kinds = set()
            for v, s in I.run(ms['Get'], start):
                paths += 1
                if s.mon[0]:
                    I.bad('leak', ms['Get'], 'returns with the mutex held')
                x = I.peek(OUT, s)
                w = unwrap(v)
                has = I.truth(('t', 'has', w), s) if w[0] == 's' else None
                if v == ('none',):
                    kinds.add('none')
                    # The channel was empty.
                    syms = [t[2] for t, b in s.conds.items() if t[0] == 't' and t[1] == 'has' and b is False
                            and t[2][0] == 's' and t[2][-1] == outs]
                    if not syms:
                        I.bad('get-lost', ms['Get'], 'nothing is returned although the output channel may not be empty')
                    if x[0] == 'some':
                        I.bad('get-put', ms['Get'], 'the output channel is filled')
                elif w[0] == 's' and w[-1] == outs and w[1] == 'cs':
                    kinds.add('some')
                    if x != ('none',) and not (x[0] == 's' and I.truth(('t', 'has', w), s) is False) or \
                            x == ('none',) and has is False and False:
                        I.bad('get-remain', ms['Get'], 'the value that is returned remains in the output channel')
                else:
                    I.bad('get', ms['Get'], 'the result is not the contents of the output channel')
            if 'some' not in kinds:
                I.bad('get', ms['Get'], 'no path returns the contents of the output channel')
            if I.sections > 1:
                I.bad('get-atomic', ms['Get'], 'the output is read and removed in different critical sections')
        # RunAction.
        I = channels(run[0]['name'])
        ran = pub = 0
        for v, s in I.run(run[0], start):
            paths += 1
            c.obligation(1)
            u = s.mon[1]
            if s.mon[0]:
                I.bad('leak', run[0], 'returns with the mutex held')
            if u.taken is not None and not u.executed and not u.stop:
                I.bad('unprocessed', run[0], 'an input is extracted but the action is not run, although the thread was not stopped')
            if u.executed and u.taken is None:
                I.bad('spurious', run[0], 'the action is run without input')
            ran += bool(u.executed)
            if outs:
                if u.published is not None:
                    pub += 1
                    oks = [b for t, b in s.conds.items() if contains(t, u.result) and 'ok' in t]
                    if True not in oks:
                        I.bad('publish-error', run[0], 'an output is published although the action may have failed')
                    if not contains(u.published, u.result):
                        I.bad('publish-other', run[0], 'the output that is published is not the result of the action')
                    if u.after != u.result:
                        I.bad('publish-stopped', run[0], 'an output is published without testing whether the thread was stopped during the action')
                    elif u.stop and False:
                        pass
                elif u.executed and not u.stop:
                    oks = [b for t, b in s.conds.items() if contains(t, u.result) and 'ok' in t]
                    if False not in oks:
                        I.bad('unpublished', run[0], 'the result of the action is not published although it is not an error')
                x = s.store.get(OUT)
                if x is not None and x == ('none',):
                    I.bad('clear', run[0], 'the output channel is emptied')
        if not ran:
            I.bad('never', run[0], 'the action is never run')
        if outs and not pub:
            I.bad('never-published', run[0], 'no output is ever published')
        for f, g in guards.items():
            if not g:
                c.violation('%s:guard:%s' % (label, f), label, '%s: no mutex protects all the accesses to %s' % (label, f))
        # Destruction.
        dtor = next((m for m in tu.methods(rec) if m['kind'] == 'CXXDestructorDecl'), None)
        c.obligation(1, '%s: destruction' % label)
        if dtor is None:
            c.violation(label + ':destruction', label, '%s: the thread is not joined before the members that it uses '
                        'are destroyed: there is no destructor' % label)
        else:
            I = make(label + '::destructor')
            I.hide = None
            for v, s in I.run(dtor, start):
                paths += 1
                if not I.idle(I.peek(T, s), s):
                    I.bad('destruction', dtor, 'a path of the destructor does not stop and join the thread')
    # Stoppable threads.
    mk = [d for d in tu.decl.values() if d['kind'] == 'FunctionDecl' and d.get('name') == 'MakeStoppableThread'
          and d['id'] not in tu.in_template and ai.TU.body_of(d) is not None]
    gets = [d for d in tu.funcs if d.get('name') == 'get_stop_token' and d['id'] not in tu.in_template]
    if not mk or not gets:
        raise Broken('MakeStoppableThread or get_stop_token not found')
    for d in mk:
        stoppable(tu, c, d, gets[0])
        paths += 1
    c.require('paths', paths, 20)
    c.require('instantiations', count, 2)
    c.require('thread functions', len(bodies), 2)
    c.require('MakeStoppableThread instantiations', len(mk), 3)


def unwrap(v):
    while v[0] == 'some' or v[0] == 't' and v[1] in ('moved', 'val'):
        v = v[1] if v[0] == 'some' else v[2]
    return v


class StopInterp(ai.Interp):
    def __init__(self, tu, c, label):
        super().__init__(tu)
        self.c, self.label = c, label
        self.threads = []
        self.writes = []

    def on_construct(self, t, node, args, st, fr):
        if re.match(r'^(const )?(std::)?jthread$', t) and args and args[0][0][0] == 'lam':
            self.threads.append((args[0][0], [v for v, p in args[1:]]))
            return [(('t', 'thread', node['id']), st)]
        return None

    def on_call(self, name, ref, n, recv, args, st, fr):
        if name in ('invoke',) or name == 'operator()' or not ref:
            if st.mon is not None:
                tok = [v for p, v in st.store.items() if p[0] == 'var' and v == ('s', 'param', st.mon[0])
                       and p[1] in self.globals]
                st.mon = (st.mon[0], st.mon[1] + 1, bool(tok))
                if not tok:
                    self.c.violation('stop-token', astlib.where(n), 'MakeStoppableThread: the function is called '
                                     'before the stop token of the thread is installed')
                return [(('s', 'void'), st)]
        return None


def stoppable(tu, c, d, get):
    I = StopInterp(tu, c, 'MakeStoppableThread')
    c.obligation(1, 'MakeStoppableThread at %s' % astlib.where(d))
    # The variable that get_stop_token returns.
    vars = [x['referencedDecl']['id'] for x in astlib.walk(ai.TU.body_of(get)) if x.get('kind') == 'DeclRefExpr'
            and x['referencedDecl']['kind'] == 'VarDecl'] + \
        [x['referencedMemberDecl'] for x in astlib.walk(ai.TU.body_of(get)) if x.get('kind') == 'MemberExpr'
         and x.get('referencedMemberDecl')]
    for v in vars:
        x = tu.decl.get(v)
        if x is not None and x.get('tls') is None:
            c.violation('tls', astlib.where(x), 'the stop token is not specific to each thread')
    I.globals = set(vars)
    res = I.run(d, None)
    if len(I.threads) != 1:
        c.violation('thread', astlib.where(d), 'MakeStoppableThread does not create one std::jthread from a closure')
        return
    for v, s in res:
        if not (v[0] == 't' and v[1] == 'thread'):
            c.violation('return', astlib.where(d), 'MakeStoppableThread does not return the thread that it created')
    l, rest = I.threads[0]
    ln, op = I.lambdas[l[1]]
    prm = [k for k in kids(op) if k['kind'] == 'ParmVarDecl']
    if not prm or 'stop_token' not in ty(prm[0]):
        c.violation('token', astlib.where(d), 'the closure of MakeStoppableThread does not take a stop token')
        return
    params = [k.get('name') for k in kids(d) if k['kind'] == 'ParmVarDecl']
    J = StopInterp(tu, c, 'MakeStoppableThread closure')
    J.lambdas = I.lambdas
    J.globals = I.globals
    n = 0
    for v, s in J.run(op, (prm[0].get('name') or prm[0]['id'], 0, False)):
        n += 1
        if s.mon[1] != 1:
            c.violation('call', astlib.where(op), 'the function of a stoppable thread is called %d times' % s.mon[1])
    if not n:
        raise Broken('no path through the closure of MakeStoppableThread')
    if len(rest) != len(params) - 1:
        c.violation('args', astlib.where(d), 'MakeStoppableThread does not pass its arguments to the thread')
    # get_stop_token.
    G = StopInterp(tu, c, 'get_stop_token')
    for v, s in G.run(get, None):
        if not any(repr(x) in repr(v) for x in vars):
            c.violation('get', astlib.where(get), 'get_stop_token does not return the token of the thread')


vlib.main(check, 'C05', 'other', RULE)
