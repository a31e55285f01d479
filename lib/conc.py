"""Lock-aware abstract interpretation."""
import re
import ai, astlib
from ai import kids, strip, ty, sugar

GUARDS = {'MutexLock': 'x', 'ReaderMutexLock': 'r', 'WriterMutexLock': 'x', 'ReleasableMutexLock': 'x',
          'MutexLockMaybe': 'x', 'lock_guard': 'x', 'scoped_lock': 'x', 'unique_lock': 'x', 'shared_lock': 'r'}
ACQ = {'Lock': 'x', 'WriterLock': 'x', 'ReaderLock': 'r', 'lock': 'x', 'lock_shared': 'r'}
REL = {'Unlock', 'WriterUnlock', 'ReaderUnlock', 'unlock', 'unlock_shared'}
AWAIT = {'Await', 'AwaitWithTimeout', 'AwaitWithDeadline', 'LockWhen', 'ReaderLockWhen', 'WriterLockWhen'}


def guard_kind(t):
    m = re.match(r'^(?:const )?(?:class )?(?:absl::|std::)?(?:\w+::)*(\w+)(?:<.*>)?$', t)
    return GUARDS.get(m.group(1)) if m else None


class LockInterp(ai.Interp):
    """st.mon is (locks, user) where locks is a frozenset of (path, mode)."""

    def locks(self, st):
        return st.mon[0]

    def user(self, st):
        return st.mon[1]

    def set_user(self, st, u):
        st.mon = (st.mon[0], u)

    def held(self, st, mode=None):
        return [p for p, m in st.mon[0] if mode is None or m == mode]

    # Overridable.
    def acquired(self, path, mode, node, st, fr):
        pass

    def released(self, path, mode, node, st, fr):
        pass

    def shared_fields(self):
        """Names of the fields of `this` that other threads may change."""
        return ()

    def acquire(self, path, mode, node, st, fr):
        self.pre_acquire(path, mode, node, st, fr)
        st.mon = (st.mon[0] | {(path, mode)}, st.mon[1])
        self.refresh(path, node, st, fr)
        self.acquired(path, mode, node, st, fr)

    def pre_acquire(self, path, mode, node, st, fr):
        pass

    def release(self, path, node, st, fr):
        for p, m in st.mon[0]:
            if p == path:
                self.released(p, m, node, st, fr)
        st.mon = (frozenset(x for x in st.mon[0] if x[0] != path), st.mon[1])

    def refresh(self, path, node, st, fr):
        this = path[1] if path[0] == 'fld' else ('this',)
        for f in self.shared_fields():
            p = ('fld', this, f)
            v = ('s', 'cs', node.get('id'), fr.ctx, f)
            self.forget(p, st, v)
            # The symbol is fresh: forget what was known the last time around.
            st.conds = {t: b for t, b in st.conds.items() if not ai.contains(t, v)}

    def on_construct(self, t, node, args, st, fr):
        g = guard_kind(t)
        if g and args:
            v, p = args[0]
            m = v[1] if v[0] == 'loc' else p
            if m is None:
                m = ('deref', v)
            self.acquire(m, g, node, st, fr)
            return [(('t', 'guard', m), st)]
        if t.endswith('Condition') and args is not None:
            return [(('t', 'condition') + tuple(v for v, _ in args), st)]
        return None

    def on_scope_exit(self, var, path, st, fr):
        v = st.store.get(path)
        if v and v[0] == 't' and v[1] == 'guard':
            self.release(v[2], var, st, fr)

    def lock_call(self, name, n, recv, args, st, fr):
        if recv is None or recv[0] == 'val':
            return None
        v = st.store.get(recv)
        if v and v[0] == 't' and v[1] == 'guard':
            if name in ('Release', 'unlock'):
                self.release(v[2], n, st, fr)
                return [(('s', 'void'), st)]
        e = strip(kids(n)[0])
        if e['kind'] != 'MemberExpr' or not kids(e) or not re.search(r'(Mutex|mutex)\b', ty(kids(e)[0])):
            return None
        if name in AWAIT:
            if name.endswith('When'):
                self.acquire(recv, 'r' if name.startswith('Reader') else 'x', n, st, fr)
            else:
                for p, m in list(st.mon[0]):
                    if p == recv:
                        self.released(p, m, n, st, fr)
                self.refresh(recv, n, st, fr)
                for p, m in list(st.mon[0]):
                    if p == recv:
                        self.acquired(p, m, n, st, fr)
            out = []
            for term, s in self.condition(args[0][0], n, st, fr):
                if name in ('AwaitWithTimeout', 'AwaitWithDeadline'):
                    out.append((term, s))
                elif self.assume(term, True, n, s, fr):
                    out.append((('s', 'void'), s))
            return out
        if name in ACQ:
            self.acquire(recv, ACQ[name], n, st, fr)
            return [(('s', 'void'), st)]
        if name in REL:
            self.release(recv, n, st, fr)
            return [(('s', 'void'), st)]
        return None

    def condition(self, c, n, st, fr):
        """The value of an absl::Condition."""
        if c[0] == 't' and c[1] == 'condition':
            a = c[2:]
            v = a[0]
            if v[0] == 'loc':
                v = self.peek(v[1], st, fr)
                if len(a) == 1 and v[0] != 'lam':
                    return [(v, st)]
            if v[0] == 'lam':
                ln, op = self.lambdas[v[1]]
                return self.run_function(op, [(x, None) for x in a[1:]], self.lambda_frame(v, n, fr), st)
        return [(self.sym('condition', n, fr), st)]

    def on_call(self, name, ref, n, recv, args, st, fr):
        return self.lock_call(name, n, recv, args, st, fr)


def linear(t):
    """A term as an integer-linear combination {atom: coefficient}, None: constant."""
    if t[0] == 'c' and isinstance(t[1], (int, float)):
        return {None: t[1]}
    if t[0] == 't' and t[1] in ('+', '-') and len(t) == 4:
        a, b = linear(t[2]), linear(t[3])
        r = dict(a)
        for k, v in b.items():
            r[k] = r.get(k, 0) + (v if t[1] == '+' else -v)
        return {k: v for k, v in r.items() if v or k is None}
    if t[0] == 't' and t[1] == 'u-':
        return {k: -v for k, v in linear(t[2]).items()}
    if t[0] == 't' and t[1] == '*' and len(t) == 4:
        a, b = linear(t[2]), linear(t[3])
        for x, y in ((a, b), (b, a)):
            if set(x) <= {None}:
                return {k: v * x.get(None, 0) for k, v in y.items()}
    return {t: 1, None: 0}


def facts(st):
    """Integer-linear facts L ≥ 0 known on a path."""
    out = []
    for t, v in st.conds.items():
        out += fact(t, v)
    return out


def fact(t, v):
    if t[0] == 't' and t[1] == '<' and len(t) == 4:
        d = linear(('t', '-', t[3], t[2]))     # b - a
        if v:
            d = dict(d); d[None] = d.get(None, 0) - 1
        else:
            d = {k: -x for k, x in d.items()}
        return [d]
    if t[0] == 't' and t[1] == '==' and len(t) == 4 and v:
        d = linear(('t', '-', t[3], t[2]))
        return [d, {k: -x for k, x in d.items()}]
    return []


def implies(fs, want):
    """Some fact is `want` ≥ 0, up to a non-negative constant."""
    w = {k: v for k, v in want.items() if k is not None and v}
    for f in fs:
        g = {k: v for k, v in f.items() if k is not None and v}
        if g == w and f.get(None, 0) <= want.get(None, 0):
            return True
    return False


def is_zero(st, x):
    """Whether the integer term x is known to be zero (None: unknown)."""
    w = {k: v for k, v in linear(x).items() if v}
    m = {k: -v for k, v in w.items()}
    for t, v in st.conds.items():
        if t[0] == 't' and t[1] == '==' and len(t) == 4:
            d = {k: c for k, c in linear(('t', '-', t[2], t[3])).items() if c}
            if d in (w, m):
                return v
    return None
