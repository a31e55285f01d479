"""An abstract interpreter over clang's resolved AST.

Structured, path-sensitive within a function and its inlined callees; loops are
summarized by forgetting everything that they may modify and iterating the
monitor to a fixpoint.  The program is never executed: values are symbolic
terms, and branches are followed unless the accumulated assumptions decide
them.

Values are nested tuples:
  ('c', x)            a known constant
  ('loc', path)       the address of a location
  ('lam', id, env)    a closure
  ('some', v), ('none',)   a std::optional of known engagement
  ('s', tag, ...)     an opaque symbol
  ('t', op, args...)  a term
Locations are paths: ('this',), ('var', id, ctx), ('fld', path, name),
('deref', value), ('elem', path, value), ('tmp', id, ctx).
"""
import re, sys
import astlib
from vbuild import Broken

sys.setrecursionlimit(20000)

TRANSPARENT = {
    'ExprWithCleanups', 'MaterializeTemporaryExpr', 'ImplicitCastExpr', 'CXXStaticCastExpr',
    'CStyleCastExpr', 'CXXFunctionalCastExpr', 'CXXConstCastExpr', 'CXXReinterpretCastExpr',
    'ParenExpr', 'CXXBindTemporaryExpr', 'ConstantExpr', 'SubstNonTypeTemplateParmExpr',
    'CXXDynamicCastExpr', 'BuiltinBitCastExpr', 'CXXStdInitializerListExpr', 'AttributedStmt',
    'CXXRewrittenBinaryOperator', 'CXXDefaultArgExpr', 'CXXDefaultInitExpr', 'OpaqueValueExpr'}
FUNCS = {'FunctionDecl', 'CXXMethodDecl', 'CXXConstructorDecl', 'CXXDestructorDecl', 'CXXConversionDecl'}
LITERALS = {'IntegerLiteral', 'FloatingLiteral', 'CharacterLiteral', 'CXXBoolLiteralExpr'}


def ty(n):
    t = n.get('type') or {}
    return t.get('desugaredQualType') or t.get('qualType') or ''


def sugar(n):
    return (n.get('type') or {}).get('qualType') or ''


def kids(n):
    return [x for x in n.get('inner', ()) if isinstance(x, dict) and x]


def strip(n):
    while n.get('kind') in TRANSPARENT and kids(n):
        n = kids(n)[-1] if n['kind'] == 'SubstNonTypeTemplateParmExpr' else kids(n)[0]
    return n


class TU:
    """An index of the declarations of a dump."""

    def __init__(self, source, filt, interface=False, extra=()):
        self.source, self.filt = source, filt
        self.roots = astlib.dump(source, filt, interface, extra)
        self.decl, self.parent, self.qual = {}, {}, {}
        self._canon = {}
        self.bodies = {}
        self.in_template = set()
        for r in self.roots:
            self.index(r, None, False)
        for i, d in list(self.decl.items()):
            if d['kind'] in FUNCS and self.body_of(d) is not None:
                self.bodies.setdefault(self.canon(i), d)
        self.funcs = [d for d in self.bodies.values()]

    def index(self, n, parent, templ):
        k = n.get('kind', '')
        if k.endswith('Decl') and 'id' in n:
            old = self.decl.get(n['id'])
            if old is None or len(n.get('inner', ())) > len(old.get('inner', ())):
                self.decl[n['id']] = n
            p = n.get('parentDeclContextId') or (parent['id'] if parent else None)
            if p:
                self.parent.setdefault(n['id'], p)
            if templ:
                self.in_template.add(n['id'])
            prev = n.get('previousDecl')
            if prev:
                self.union(n['id'], prev)
            parent2 = n
        else:
            parent2 = parent
        inner = kids(n)
        if k in ('ClassTemplateDecl', 'FunctionTemplateDecl', 'VarTemplateDecl'):
            first = True
            for c in inner:
                ck = c.get('kind', '')
                pat = first and ck in FUNCS | {'CXXRecordDecl', 'VarDecl'}
                if pat:
                    first = False
                # Specializations appear as siblings of the pattern; they are
                # concrete unless the template itself is inside a pattern.
                self.index(c, parent if ck in FUNCS or 'Record' in ck or 'Specialization' in ck else parent2,
                           templ or pat)
            return
        if k == 'ClassTemplatePartialSpecializationDecl':
            templ = True
        for c in inner:
            self.index(c, parent2, templ)

    def union(self, a, b):
        ra, rb = self.canon(a), self.canon(b)
        if ra != rb:
            self._canon[max(ra, rb)] = min(ra, rb)

    def canon(self, a):
        while a in self._canon:
            a = self._canon[a]
        return a

    @staticmethod
    def body_of(d):
        for c in kids(d):
            if c.get('kind') in ('CompoundStmt', 'CXXTryStmt'):
                return c
        return None

    def find_body(self, id):
        return self.bodies.get(self.canon(id))

    def owner(self, d):
        """The record that declares a member (a decl or None)."""
        i = d['id']
        p = self.parent.get(i)
        if p is None or p not in self.decl or 'Record' not in self.decl[p].get('kind', '') and \
                'Specialization' not in self.decl[p].get('kind', ''):
            for j in self.decl:
                if j != i and self.canon(j) == self.canon(i):
                    q = self.parent.get(j)
                    if q in self.decl and ('Record' in self.decl[q]['kind'] or
                                           'Specialization' in self.decl[q]['kind']):
                        return self.decl[q]
        return self.decl.get(p)

    def qualified(self, d):
        out = []
        seen = set()
        while d is not None and d.get('id') not in seen:
            seen.add(d.get('id'))
            if d.get('name'):
                out.append(d['name'])
            p = self.parent.get(d.get('id'))
            d = self.decl.get(p)
        return '::'.join(reversed(out))

    def records(self, name, concrete=True):
        for i, d in list(self.decl.items()):
            if d.get('name') == name and d.get('completeDefinition') and \
                    d['kind'] in ('CXXRecordDecl', 'ClassTemplateSpecializationDecl') and \
                    not (concrete and i in self.in_template):
                yield d

    def fields(self, type_name):
        """The names of the fields of an aggregate."""
        if not hasattr(self, '_fields'):
            self._fields = {}
            for i, d in self.decl.items():
                if d['kind'] in ('CXXRecordDecl', 'ClassTemplateSpecializationDecl') and d.get('completeDefinition'):
                    if i not in self.in_template:
                        self._fields.setdefault(d.get('name'), [c.get('name') for c in kids(d)
                                                                if c['kind'] == 'FieldDecl'])
        short = re.sub(r'<.*>', '', re.sub(r'^(const )?(struct |class )?', '', type_name))
        last = re.split(r'::', type_name if type_name.endswith('>') else type_name)[-1]
        return self._fields.get(last) or self._fields.get(short.split('::')[-1])

    def methods(self, record):
        """Bodies of the methods of a concrete record."""
        ids = {record['id']}
        for i, d in self.decl.items():
            if d['kind'] in FUNCS and self.parent.get(i) in ids:
                b = self.find_body(i)
                if b is not None:
                    yield b


class State:
    __slots__ = ('store', 'conds', 'mon', 'alias', 'dead')

    def __init__(self):
        self.store, self.conds, self.mon, self.alias, self.dead = {}, {}, None, {}, False

    def copy(self):
        s = State()
        s.store = dict(self.store)
        s.conds = dict(self.conds)
        s.alias = dict(self.alias)
        s.mon = self.mon
        s.dead = self.dead
        return s

    def key(self):
        return (tuple(sorted(self.store.items(), key=repr)), tuple(sorted(self.conds.items(), key=repr)),
                self.mon)


class Frame:
    """The inlining context."""

    def __init__(self, fn, this, ctx, parent=None):
        self.fn, self.this, self.ctx, self.parent = fn, this, ctx, parent

    def functions(self):
        f = self
        while f:
            yield f.fn
            f = f.parent


FALSE, TRUE = ('c', 0), ('c', 1)
OPTIONAL = re.compile(r'^(const )?(class )?(std::)?optional<')
MAX_STATES = 4000


def contains(t, sub):
    if t == sub:
        return True
    return isinstance(t, tuple) and any(contains(x, sub) for x in t if isinstance(x, tuple))


def is_ref(t):
    return t.endswith('&') or t.endswith('&&')


class Interp:
    max_depth = 10

    def __init__(self, tu):
        self.tu = tu
        self.steps = 0

    # ---- hooks for subclasses ---------------------------------------------
    def on_call(self, name, callee, node, recv, args, st, fr):
        """Called before a call that is not inlined.  May return a value (or a
        list of (value, state)) to model the call, or None."""
        return None

    def on_read(self, path, node, st, fr):
        pass

    def on_write(self, path, value, node, st, fr):
        pass

    def on_construct(self, t, node, args, st, fr):
        return None

    def on_scope_exit(self, var, path, st, fr):
        pass

    def on_declare(self, var, path, value, st, fr):
        pass

    def on_branch(self, term, truth, node, st, fr):
        pass

    def inline(self, decl, node, fr):
        return True

    def fresh_read(self, path, st, fr):
        """The value of a location about which nothing is known."""
        return ('s', 'init', path)

    # ---- helpers --------------------------------------------------------------
    def sym(self, tag, node, fr):
        return ('s', tag, node.get('id'), fr.ctx)

    def load(self, path, node, st, fr):
        self.on_read(path, node, st, fr)
        return self.peek(path, st, fr)

    def peek(self, path, st, fr=None):
        v = st.store.get(path)
        if v is not None:
            return v
        # A field of an object whose value is known as a whole.
        if path[0] == 'fld':
            base = self.peek_opt(path[1], st)
            if base is not None:
                return self.field_of(base, path[2])
        if path[0] == 'deref' and path[1][0] == 'loc':
            return self.peek(path[1][1], st, fr)
        return self.fresh_read(path, st, fr)

    def peek_opt(self, path, st):
        v = st.store.get(path)
        if v is None and path[0] == 'fld':
            b = self.peek_opt(path[1], st)
            if b is not None:
                return self.field_of(b, path[2])
        return v

    def field_of(self, base, name):
        if base[0] == 't' and base[1] == 'init' and len(base) > 3:
            fs = self.tu.fields(base[2])
            if fs and name in fs and fs.index(name) + 3 < len(base):
                return base[3 + fs.index(name)]
        return ('t', 'field', base, name)

    @staticmethod
    def under(p, root):
        while True:
            if p == root:
                return True
            if p[0] in ('fld', 'elem'):
                p = p[1]
            else:
                return False

    def forget(self, root, st, value=None):
        for p in [p for p in st.store if self.under(p, root)]:
            del st.store[p]
        if value is not None:
            st.store[root] = value

    def write(self, path, value, node, st, fr, src=None):
        self.on_write(path, value, node, st, fr)
        sub = []
        if src is not None:
            for p, v in st.store.items():
                if p != src and self.under(p, src):
                    sub.append((self.rebase(p, src, path), v))
        self.forget(path, st, value)
        for p, v in sub:
            st.store[p] = v

    def rebase(self, p, a, b):
        if p == a:
            return b
        return (p[0], self.rebase(p[1], a, b)) + tuple(p[2:])

    def assume(self, term, truth, node, st, fr):
        """Refines st; returns False if infeasible."""
        t = self.truth(term, st)
        if t is not None:
            return t == truth
        term, truth = self.norm(term, truth)
        if term in st.conds:
            return st.conds[term] == truth
        st.conds[term] = truth
        self.on_branch(term, truth, node, st, fr)
        return True

    @staticmethod
    def norm(term, truth):
        while term[0] == 't' and term[1] == '!':
            term, truth = term[2], not truth
        if term[0] == 't' and term[1] == '!=':
            term, truth = ('t', '==') + term[2:], not truth
        if term[0] == 't' and term[1] == '==' and repr(term[3]) < repr(term[2]):
            term = ('t', '==', term[3], term[2])
        if term[0] == 't' and term[1] == '>':
            term = ('t', '<', term[3], term[2])
        if term[0] == 't' and term[1] == '>=':
            term, truth = ('t', '<', term[2], term[3]), not truth
        if term[0] == 't' and term[1] == '<=':
            term, truth = ('t', '<', term[3], term[2]), not truth
        return term, truth

    def truth(self, v, st):
        if v[0] == 'c':
            return bool(v[1])
        if v[0] in ('loc', 'lam', 'some'):
            return True
        if v[0] == 'none':
            return False
        if v[0] == 't' and v[1] == '!':
            t = self.truth(v[2], st)
            return None if t is None else not t
        term, tr = self.norm(v, True)
        if term in st.conds:
            return st.conds[term] == tr
        if term[0] == 't' and term[1] == '==' and term[2] == term[3]:
            return tr
        return None

    # ---- lvalues ----------------------------------------------------------------
    def lvalue(self, n, st, fr):
        """Yields (path, state)."""
        k = n['kind']
        if k in ('MaterializeTemporaryExpr',):
            out = []
            for v, s in self.eval(kids(n)[0], st, fr):
                p = ('tmp', n['id'], fr.ctx)
                self.forget(p, s, v)
                out.append((p, s))
            return out
        if k in ('ImplicitCastExpr', 'CXXStaticCastExpr', 'CStyleCastExpr', 'CXXConstCastExpr', 'ParenExpr',
                 'ExprWithCleanups', 'CXXBindTemporaryExpr', 'ConstantExpr', 'CXXFunctionalCastExpr',
                 'CXXReinterpretCastExpr', 'CXXDefaultArgExpr', 'CXXDefaultInitExpr') and kids(n):
            c = kids(n)[0]
            if n.get('valueCategory') == 'prvalue' or c.get('valueCategory') == 'prvalue':
                if c.get('valueCategory') != 'prvalue' and n.get('valueCategory') != 'prvalue':
                    return self.lvalue(c, st, fr)
                out = []
                for v, s in self.eval(n, st, fr):
                    p = ('tmp', n['id'], fr.ctx)
                    self.forget(p, s, v)
                    out.append((p, s))
                return out
            return self.lvalue(c, st, fr)
        if k == 'DeclRefExpr':
            return [(self.declref(n, st, fr), st)]
        if k == 'CXXThisExpr':
            return [(('tmp', n['id'], fr.ctx), st)]
        if k == 'MemberExpr':
            return self.member(n, st, fr)
        if k == 'UnaryOperator' and n.get('opcode') == '*':
            out = []
            for v, s in self.eval(kids(n)[0], st, fr):
                out.append((v[1] if v[0] == 'loc' else ('deref', v), s))
            return out
        if k == 'UnaryOperator' and n.get('opcode') in ('++', '--'):
            return self.incdec(n, st, fr, True)
        if k == 'ArraySubscriptExpr':
            out = []
            a, b = kids(n)[:2]
            for v, s in self.eval(a, st, fr):
                for i, s2 in self.eval(b, s, fr):
                    base = v[1] if v[0] == 'loc' else ('deref', v)
                    out.append((('elem', base, i), s2))
            return out
        if k == 'ConditionalOperator':
            c, a, b = kids(n)[:3]
            out = []
            for t, s in self.branch(c, st, fr):
                out += self.lvalue(a if t else b, s, fr)
            return out
        if k in ('BinaryOperator', 'CompoundAssignOperator'):
            op = n.get('opcode')
            if op == ',':
                out = []
                for _, s in self.eval(kids(n)[0], st, fr):
                    out += self.lvalue(kids(n)[1], s, fr)
                return out
            if op == '=' or k == 'CompoundAssignOperator':
                return self.assign(n, st, fr)
        if k in ('CallExpr', 'CXXMemberCallExpr', 'CXXOperatorCallExpr'):
            out = []
            for v, s in self.call(n, st, fr, want_lvalue=True):
                out.append((v[1] if v[0] == 'loc' else ('deref', v), s))
            return out
        if k in TRANSPARENT and kids(n):
            return self.lvalue(strip(n), st, fr)
        if k == 'StringLiteral':
            p = ('str', n.get('value'))
            return [(p, st)]
        # A prvalue used as an lvalue: a temporary.
        out = []
        for v, s in self.eval(n, st, fr):
            p = ('tmp', n.get('id'), fr.ctx)
            self.forget(p, s, v)
            out.append((p, s))
        return out

    def declref(self, n, st, fr):
        r = n.get('referencedDecl') or {}
        return self.var_path(r.get('id'), r.get('name'), st, fr)

    def var_path(self, id, name, st, fr):
        f = fr
        while f is not None:
            p = ('var', id, f.ctx)
            if p in st.alias:
                return st.alias[p]
            if f is fr and p in st.store:
                return p
            f = f.parent
        # Captured by a lambda, or a local of an outer function.
        f = fr
        while f is not None:
            p = ('var', id, f.ctx)
            if any(q == p or self.under(q, p) for q in st.store):
                return p
            f = f.parent
        return ('var', id, name)

    def member(self, n, st, fr):
        c = kids(n)[0] if kids(n) else None
        name = n.get('name', '')
        if c is None:
            return [(('var', n.get('referencedMemberDecl'), name), st)]
        cs = strip(c)
        if cs['kind'] == 'CXXThisExpr':
            return [(('fld', fr.this, name), st)]
        out = []
        if n.get('isArrow'):
            for v, s in self.eval(c, st, fr):
                base = v[1] if v[0] == 'loc' else ('deref', v)
                out.append((('fld', base, name), s))
        else:
            for p, s in self.lvalue(c, st, fr):
                out.append((('fld', p, name), s))
        return out

    def incdec(self, n, st, fr, lv):
        out = []
        for p, s in self.lvalue(kids(n)[0], st, fr):
            old = self.load(p, n, s, fr)
            new = self.arith('+' if n['opcode'] == '++' else '-', old, ('c', 1))
            self.write(p, new, n, s, fr)
            if lv:
                out.append((p, s))
            else:
                out.append((old if n.get('isPostfix') else new, s))
        return out

    def assign(self, n, st, fr):
        """Built-in assignment; yields (path, state)."""
        l, r = kids(n)[:2]
        out = []
        for v, s in self.eval(r, st, fr):
            for p, s2 in self.lvalue(l, s, fr):
                if n['kind'] == 'CompoundAssignOperator':
                    old = self.load(p, n, s2, fr)
                    v2 = self.arith(n['opcode'][:-1], old, v)
                else:
                    v2 = v
                self.write(p, v2, n, s2, fr)
                out.append((p, s2))
        return out

    # ---- rvalues -----------------------------------------------------------------
    def arith(self, op, a, b):
        if a[0] == 'c' and b[0] == 'c' and not isinstance(a[1], str) and not isinstance(b[1], str):
            x, y = a[1], b[1]
            try:
                if op == '+': return ('c', x + y)
                if op == '-': return ('c', x - y)
                if op == '*': return ('c', x * y)
                if op == '==': return ('c', int(x == y))
                if op == '!=': return ('c', int(x != y))
                if op == '<': return ('c', int(x < y))
                if op == '>': return ('c', int(x > y))
                if op == '<=': return ('c', int(x <= y))
                if op == '>=': return ('c', int(x >= y))
            except TypeError:
                pass
        if op in ('==', '!=') and {a[0], b[0]} <= {'loc', 'c', 'lam'} and a[0] != b[0]:
            return ('c', int(op == '!='))
        return ('t', op, a, b)

    def eval(self, n, st, fr):
        """Yields a list of (value, state)."""
        self.steps += 1
        if self.steps > 3000000:
            raise Broken('abstract interpretation does not terminate')
        k = n.get('kind')
        if k is None:
            return [(('s', 'none'), st)]
        if k in ('ImplicitCastExpr', 'CXXStaticCastExpr', 'CStyleCastExpr', 'CXXFunctionalCastExpr',
                 'CXXConstCastExpr', 'CXXReinterpretCastExpr', 'CXXDynamicCastExpr'):
            ck = n.get('castKind')
            c = kids(n)[0]
            if ck == 'LValueToRValue':
                return [(self.load(p, n, s, fr), s) for p, s in self.lvalue(c, st, fr)]
            if ck in ('ArrayToPointerDecay', 'FunctionToPointerDecay'):
                return [(('loc', p), s) for p, s in self.lvalue(c, st, fr)]
            if ck in ('NoOp',) and n.get('valueCategory') == 'prvalue' and c.get('valueCategory') in ('lvalue', 'xvalue'):
                return [(self.load(p, n, s, fr), s) for p, s in self.lvalue(c, st, fr)]
            if ck == 'ToVoid':
                return [(('s', 'void'), s) for _, s in self.eval_any(c, st, fr)]
            if ck in ('PointerToBoolean', 'IntegralToBoolean', 'MemberPointerToBoolean'):
                out = []
                for v, s in self.eval(c, st, fr):
                    t = self.truth(v, s)
                    out.append((v if t is None else ('c', int(t)), s))
                return out
            if ck == 'NullToPointer':
                return [(('c', 0), s) for _, s in self.eval(c, st, fr)]
            return self.eval_any(c, st, fr)
        if k == 'MaterializeTemporaryExpr':
            return self.eval(kids(n)[0], st, fr)
        if k in LITERALS:
            v = n.get('value')
            if k == 'CXXBoolLiteralExpr':
                v = int(v in (True, 'true'))
            elif k == 'IntegerLiteral':
                v = int(v)
            elif k == 'FloatingLiteral':
                v = float(v)
            return [(('c', v), st)]
        if k == 'StringLiteral':
            return [(('c', n.get('value')), st)]
        if k == 'CXXNullPtrLiteralExpr':
            return [(('c', 0), st)]
        if k in ('ImplicitValueInitExpr', 'CXXScalarValueInitExpr'):
            return [(('c', 0) if not self.is_class(ty(n)) else self.default_value(ty(n)), st)]
        if k == 'CXXThisExpr':
            return [(('loc', fr.this), st)]
        if k == 'DeclRefExpr':
            r = n.get('referencedDecl') or {}
            if r.get('kind') == 'EnumConstantDecl':
                return [(('c', 'enum:' + r.get('name', '')), st)]
            if r.get('kind') in FUNCS:
                return [(('fn', r.get('id'), r.get('name')), st)]
            p = self.declref(n, st, fr)
            return [(self.load(p, n, st, fr), st)]
        if k == 'MemberExpr':
            return [(self.load(p, n, s, fr), s) for p, s in self.member(n, st, fr)]
        if k == 'UnaryOperator':
            return self.unary(n, st, fr)
        if k in ('BinaryOperator', 'CompoundAssignOperator'):
            return self.binary(n, st, fr)
        if k == 'ConditionalOperator':
            c, a, b = kids(n)[:3]
            out = []
            for t, s in self.branch(c, st, fr):
                out += self.eval_any(a if t else b, s, fr)
            return out
        if k in ('CallExpr', 'CXXMemberCallExpr', 'CXXOperatorCallExpr', 'UserDefinedLiteral'):
            return self.call(n, st, fr)
        if k in ('CXXConstructExpr', 'CXXTemporaryObjectExpr', 'CXXInheritedCtorInitExpr'):
            return self.construct(n, st, fr)
        if k == 'LambdaExpr':
            return self.closure(n, st, fr)
        if k == 'InitListExpr':
            vals = [([], st)]
            for c in kids(n):
                vals = [(vs + [v], s2) for vs, s in vals for v, s2 in self.eval_any(c, s, fr)]
            r = self.on_construct(ty(n), n, None, st, fr)
            return [(('t', 'init', ty(n)) + tuple(vs), s) for vs, s in vals]
        if k == 'ArraySubscriptExpr':
            return [(self.load(p, n, s, fr), s) for p, s in self.lvalue(n, st, fr)]
        if k == 'CXXNewExpr':
            out = [(self.sym('new', n, fr), st)]
            for c in kids(n):
                out = [(v, s2) for v, s in out for _, s2 in self.eval_any(c, s, fr)]
            return out
        if k == 'CXXDeleteExpr':
            out = []
            for v, s in self.eval(kids(n)[0], st, fr):
                r = self.on_call('delete', None, n, None, [v], s, fr)
                out.append((('s', 'void'), s))
            return out
        if k == 'CXXThrowExpr':
            for c in kids(n):
                self.eval_any(c, st, fr)
            return []
        if k == 'StmtExpr':
            out = []
            for kind, v, s in self.exec(kids(n)[0], st, fr):
                if kind == 'next':
                    out.append((('s', 'stmtexpr', n['id']), s))
            return out
        if k in TRANSPARENT:
            cs = kids(n)
            if not cs:
                return [(self.sym(k, n, fr), st)]
            return self.eval_any(cs[0], st, fr)
        # Anything else: opaque, but evaluate the operands for their effects.
        outs = [st]
        if k not in ('UnaryExprOrTypeTraitExpr', 'CXXNoexceptExpr', 'CXXTypeidExpr', 'RequiresExpr',
                     'ConceptSpecializationExpr', 'SizeOfPackExpr', 'TypeTraitExpr'):
            for c in kids(n):
                if c.get('kind', '').endswith(('Expr', 'Operator', 'Literal')):
                    outs = [s2 for s in outs for _, s2 in self.eval_any(c, s, fr)]
        return [(self.sym(k, n, fr), s) for s in outs]

    def eval_any(self, n, st, fr):
        """Evaluates an expression of any category, to its value."""
        if n.get('valueCategory') in ('lvalue', 'xvalue') and n['kind'] not in LITERALS and \
                n['kind'] not in ('StringLiteral', 'InitListExpr'):
            return [(self.peek(p, s, fr), s) for p, s in self.lvalue(n, st, fr)]
        return self.eval(n, st, fr)

    @staticmethod
    def is_class(t):
        return not re.match(r'^(const )?(unsigned |signed )?(int|long|short|char|bool|float|double|void|__int128)\b', t) and \
            not t.endswith('*')

    def default_value(self, t):
        if OPTIONAL.match(t):
            return ('none',)
        return ('t', 'default', t)

    def unary(self, n, st, fr):
        op = n.get('opcode')
        c = kids(n)[0]
        if op == '&':
            return [(('loc', p), s) for p, s in self.lvalue(c, st, fr)]
        if op in ('++', '--'):
            return self.incdec(n, st, fr, False)
        if op == '*':
            return [(self.load(p, n, s, fr), s) for p, s in self.lvalue(n, st, fr)]
        out = []
        for v, s in self.eval_any(c, st, fr):
            if op == '!':
                t = self.truth(v, s)
                out.append((('c', int(not t)) if t is not None else
                            (v[2] if v[0] == 't' and v[1] == '!' else ('t', '!', v)), s))
            elif op == '-' and v[0] == 'c' and not isinstance(v[1], str):
                out.append((('c', -v[1]), s))
            elif op == '+':
                out.append((v, s))
            else:
                out.append((('t', 'u' + op, v), s))
        return out

    def binary(self, n, st, fr):
        op = n.get('opcode')
        if n['kind'] == 'CompoundAssignOperator' or op == '=':
            return [(self.peek(p, s, fr), s) for p, s in self.assign(n, st, fr)]
        a, b = kids(n)[:2]
        if op in ('&&', '||'):
            out = []
            for t, s in self.branch(n, st, fr):
                out.append((('c', int(t)), s))
            return out
        if op == ',':
            out = []
            for _, s in self.eval_any(a, st, fr):
                out += self.eval_any(b, s, fr)
            return out
        out = []
        for x, s in self.eval_any(a, st, fr):
            for y, s2 in self.eval_any(b, s, fr):
                v = self.arith(op, x, y)
                t = self.truth(v, s2) if v[0] == 't' and op in ('==', '!=', '<', '>', '<=', '>=') else None
                out.append((v if t is None else ('c', int(t)), s2))
        return out

    def branch(self, n, st, fr):
        """Evaluates a condition; yields (bool, state)."""
        m = n
        while m.get('kind') in TRANSPARENT and kids(m) and m.get('castKind') in (
                None, 'NoOp', 'IntegralToBoolean', 'IntegralCast'):
            if m['kind'] == 'MaterializeTemporaryExpr':
                break
            m = kids(m)[0]
        if m.get('kind') == 'UnaryOperator' and m.get('opcode') == '!':
            return [(not t, s) for t, s in self.branch(kids(m)[0], st, fr)]
        if m.get('kind') == 'BinaryOperator' and m.get('opcode') in ('&&', '||'):
            a, b = kids(m)[:2]
            out = []
            for t, s in self.branch(a, st, fr):
                if t == (m['opcode'] == '||'):
                    out.append((t, s))
                else:
                    out += self.branch(b, s, fr)
            return out
        out = []
        for v, s in self.eval_any(n, st, fr):
            t = self.truth(v, s)
            if t is not None:
                out.append((t, s))
            else:
                s2 = s.copy()
                if self.assume(v, True, n, s, fr):
                    out.append((True, s))
                if self.assume(v, False, n, s2, fr):
                    out.append((False, s2))
        return out

    # ---- closures ------------------------------------------------------------------
    def closure(self, n, st, fr):
        rec = next((c for c in kids(n) if c['kind'] == 'CXXRecordDecl'), None)
        op = None
        if rec:
            for c in kids(rec):
                if c['kind'] == 'CXXMethodDecl' and c.get('name') == 'operator()':
                    op = c
                if c['kind'] == 'FunctionTemplateDecl':
                    for d in kids(c):
                        # The pattern comes first, its specializations follow.
                        if d['kind'] == 'CXXMethodDecl' and d.get('name') == 'operator()' and \
                                TU.body_of(d) is not None:
                            op = d
        self.lambdas = getattr(self, 'lambdas', {})
        self.lambdas[n['id']] = (n, op)
        # Init captures are the initializers between the record and the body.
        outs = [st]
        for c in kids(n):
            if c['kind'] in ('CXXRecordDecl', 'CompoundStmt', 'CXXThisExpr'):
                continue
            outs = [s2 for s in outs for _, s2 in self.eval_any(c, s, fr)]
        return [(('lam', n['id'], fr.ctx, fr.this), s) for s in outs]

    def lambda_frame(self, v, call, fr):
        return Frame(('lambda', v[1]), v[3], fr.ctx + (call.get('id'),), fr)

    # ---- calls -----------------------------------------------------------------------
    def callee(self, n):
        """(kind, decl-ref dict, callee expr)."""
        c = kids(n)[0]
        e = strip(c)
        if e['kind'] == 'DeclRefExpr':
            return e.get('referencedDecl') or {}, e
        if e['kind'] == 'MemberExpr':
            return {'id': e.get('referencedMemberDecl'), 'name': e.get('name'), 'kind': 'CXXMethodDecl'}, e
        return {}, e

    def args(self, nodes, params, st, fr):
        """Evaluates arguments; yields ([(value, path or None)], state)."""
        outs = [([], st)]
        for i, a in enumerate(nodes):
            nxt = []
            for vs, s in outs:
                if a.get('valueCategory') in ('lvalue', 'xvalue'):
                    for p, s2 in self.lvalue(a, s, fr):
                        nxt.append((vs + [(self.peek(p, s2, fr), p)], s2))
                else:
                    for v, s2 in self.eval(a, s, fr):
                        nxt.append((vs + [(v, None)], s2))
            outs = nxt
        return outs

    def call(self, n, st, fr, want_lvalue=False):
        ref, e = self.callee(n)
        name = ref.get('name') or ''
        arg_nodes = kids(n)[1:]
        recv_outs = [(None, st)]
        k = n['kind']
        if k == 'CXXMemberCallExpr' and e['kind'] == 'MemberExpr':
            base = kids(e)[0] if kids(e) else None
            if base is None:
                recv_outs = [(None, st)]
            elif strip(base)['kind'] == 'CXXThisExpr':
                recv_outs = [(fr.this, st)]
            elif e.get('isArrow'):
                recv_outs = [(v[1] if v[0] == 'loc' else ('deref', v), s) for v, s in self.eval(base, st, fr)]
            else:
                recv_outs = self.lvalue(base, st, fr)
        elif k == 'CXXOperatorCallExpr' and ref.get('kind') == 'CXXMethodDecl':
            recv_node, arg_nodes = arg_nodes[0], arg_nodes[1:]
            if recv_node.get('valueCategory') in ('lvalue', 'xvalue'):
                recv_outs = self.lvalue(recv_node, st, fr)
            else:
                recv_outs = []
                for v, s in self.eval(recv_node, st, fr):
                    p = ('tmp', recv_node['id'], fr.ctx)
                    self.forget(p, s, v)
                    recv_outs.append((p, s))
        fv = None
        if not ref:
            # A call through a value.
            recv_outs = []
            for v, s in (self.eval_any(kids(n)[0], st, fr)):
                recv_outs.append((('val', v), s))
        out = []
        for recv, s in recv_outs:
            for args, s2 in self.args(arg_nodes, None, s, fr):
                if s2.dead:
                    continue
                r = self.do_call(name, ref, n, recv, args, s2, fr, want_lvalue)
                out += r
        self.bound(out)
        return out

    def bound(self, out):
        if len(out) > MAX_STATES:
            raise Broken('abstract interpretation: too many paths')

    def do_call(self, name, ref, n, recv, args, st, fr, want_lvalue):
        r = self.on_call(name, ref, n, recv, args, st, fr)
        if r is not None:
            return r if isinstance(r, list) else [(r, st)]
        # Functions that leave a reference to an argument.
        if name in ('move', 'forward', 'forward_like', 'as_const', 'addressof', '__builtin_addressof') and len(args) >= 1:
            v, p = args[0]
            if p is None:
                p = ('tmp', n['id'], fr.ctx)
                self.forget(p, st, v)
            if want_lvalue or name.endswith('addressof'):
                return [(('loc', p), st)]
            return [(self.peek(p, st, fr), st)]
        if name == 'swap' and len(args) == 2 and args[0][1] and args[1][1]:
            return self.swap(args[0][1], args[1][1], n, st, fr)
        if name == 'swap' and len(args) == 1 and recv and args[0][1]:
            return self.swap(recv, args[0][1], n, st, fr)
        if name == 'exchange' and len(args) == 2 and args[0][1]:
            old = self.load(args[0][1], n, st, fr)
            new = args[1][0]
            if len(kids(n)) > 2 and 'nullopt' in ty(kids(n)[2]):
                new = ('none',)
            elif OPTIONAL.match(ty(kids(n)[1])) and new[0] == 't' and new[1] in ('init', 'default') and len(new) == 3:
                new = ('none',)
            self.write(args[0][1], new, n, st, fr, args[1][1])
            return [(old, st)]
        # A closure.
        fv = None
        if recv and recv[0] == 'val':
            fv = recv[1]
            if fv[0] == 'loc':
                fv = self.peek(fv[1], st, fr)
        elif recv and name == 'operator()':
            fv = self.peek(recv, st, fr)
        elif name in ('invoke',) and args:
            fv = args[0][0]
            args = args[1:]
        if fv and fv[0] == 'lam' and fv[1] in getattr(self, 'lambdas', {}):
            ln, op = self.lambdas[fv[1]]
            if op is not None and ('lambda', fv[1]) not in list(fr.functions()):
                return self.run_function(op, args, self.lambda_frame(fv, n, fr), st, want_lvalue)
        om = self.optional_model(name, n, recv, args, st, fr, want_lvalue)
        if om is not None:
            return om
        id = ref.get('id')
        if fv and fv[0] == 'fn':
            id = fv[1]
        if fv and fv[0] == 'loc' and fv[1][0] == 'var':
            id = fv[1][1]
        d = self.tu.find_body(id) if id else None
        if d is not None and d['id'] not in list(fr.functions()) and \
                len(fr.ctx) < self.max_depth and self.inline(d, n, fr):
            this = recv if recv and recv[0] != 'val' else fr.this
            return self.run_function(d, args, Frame(d['id'], this, fr.ctx + (n['id'],), fr), st, want_lvalue)
        if self.noreturn(name, ref, n):
            return []
        # operator= of a class: plain assignment of the value.
        if name == 'operator=' and recv is not None and len(args) == 1:
            v, p = args[0]
            v = self.convert_for(recv, v, ty(kids(n)[1]) if len(kids(n)) > 1 else '', st)
            self.write(recv, v, n, st, fr, p)
            self.moved(kids(n)[2] if len(kids(n)) > 2 else None, p, v, n, st, fr)
            return [(('loc', recv), st)] if want_lvalue else [(v, st)]
        return self.opaque_call(name, ref, n, recv, args, st, fr, want_lvalue)

    def swap(self, p, q, n, st, fr):
        a, b = self.load(p, n, st, fr), self.load(q, n, st, fr)
        self.write(p, b, n, st, fr)
        self.write(q, a, n, st, fr)
        return [(('s', 'void'), st)]

    def moved(self, node, path, v, n, st, fr):
        """The state of a location after it was moved from."""
        if node is None or path is None:
            return
        if node.get('valueCategory') != 'xvalue' or path[0] == 'tmp':
            return
        t = ty(node)
        if OPTIONAL.match(t):
            if v == ('none',):
                return
            if v[0] == 'some':
                st.store[path] = ('some', ('t', 'moved', v[1]))
            return
        if re.match(r'^(const )?(std::)?(unique_ptr|shared_ptr)<|not_null<', t):
            st.store[path] = ('c', 0)
        elif re.match(r'^(const )?(std::)?(jthread|thread)\b', t):
            st.store[path] = ('t', 'default', t)
        elif self.is_class(t):
            st.store[path] = ('t', 'moved', v)

    def convert_for(self, path, v, t, st):
        if OPTIONAL.match(t):
            if v[0] in ('none', 'some'):
                return v
            if v[0] == 't' and v[1] == 'nullopt':
                return ('none',)
        return v

    def opaque_call(self, name, ref, n, recv, args, st, fr, want_lvalue):
        # Non-const reference or pointer arguments may be modified.
        for v, p in args:
            if p is not None and self.may_modify(p, v, n):
                pass
        vals = tuple(v for v, p in args)
        r = ('t', 'call', name) + ((self.recv_value(recv, st, fr),) if recv else ()) + vals
        if name in ('operator==', 'operator!=', 'operator<', 'operator>', 'operator<=', 'operator>=') :
            r = ('t', name[8:]) + ((self.recv_value(recv, st, fr),) if recv else ()) + vals
        elif not self.pure(name, ref, n):
            r = self.sym('call:' + name, n, fr)
        if name in self.ALGORITHMS:
            outs = [st]
            for v, p in args:
                if v[0] == 'lam' and v[1] in getattr(self, 'lambdas', {}):
                    ln, op = self.lambdas[v[1]]
                    if op is None:
                        continue
                    ps = [c for c in kids(op) if c['kind'] == 'ParmVarDecl']
                    more = []
                    for s in outs:
                        a = [(self.sym('element%d' % i, n, fr), ('elem', ('range', tuple(x for x, _ in args)), ('c', i)))
                             for i in range(len(ps))]
                        more += [s2 for _, s2 in self.run_function(op, a, self.lambda_frame(v, n, fr), s.copy())]
                    outs = outs + more
            if len(outs) > 1:
                return [(r, s) for s in outs]
        if recv is not None and recv[0] != 'val' and not self.const_method(ref, n):
            if recv[0] != 'this':
                self.forget(recv, st, ('t', 'after', name, self.sym('mut', n, fr)))
        if want_lvalue:
            return [(('loc', ('deref', r)), st)]
        return [(r, st)]

    def recv_value(self, recv, st, fr):
        return recv[1] if recv[0] == 'val' else self.peek(recv, st, fr)

    def may_modify(self, p, v, n):
        return False

    ALGORITHMS = {'for_each', 'for_each_n', 'transform', 'any_of', 'all_of', 'none_of', 'find_if', 'find_if_not',
                  'count_if', 'remove_if', 'sort', 'stable_sort', 'generate', 'generate_n', 'partition',
                  'partition_point', 'copy_if', 'erase_if', 'accumulate'}
    OBSERVERS = {'front', 'back', 'begin', 'end', 'cbegin', 'cend', 'rbegin', 'rend', 'at', 'data', 'get', 'value',
                 'size', 'empty', 'c_str', 'find', 'count', 'contains', 'lower_bound', 'upper_bound', 'ok',
                 'status', 'joinable', 'operator*', 'operator->', 'operator[]', 'operator()', 'operator bool',
                 'has_value', 'valid', 'stop_requested', 'length'}

    def const_method(self, ref, n):
        c = strip(kids(n)[0])
        if ref.get('name') in self.OBSERVERS:
            return True
        t = ''
        d = self.tu.decl.get(ref.get('id'))
        if d is not None:
            t = sugar(d)
        elif n['kind'] == 'CXXOperatorCallExpr':
            t = ((c.get('referencedDecl') or {}).get('type') or {}).get('qualType', '')
        elif c['kind'] == 'MemberExpr' and kids(c):
            # The object argument is converted to const for a const method.
            b = kids(c)[0]
            bt = ty(b)
            return bt.startswith('const ') or bt.endswith('const *') or ' const *' in bt
        return bool(re.search(r'\) const', t))

    def pure(self, name, ref, n):
        return self.const_method(ref, n) or name in ('min', 'max', 'size', 'empty') or \
            name in ('operator+', 'operator-', 'operator*', 'operator/', 'operator%')

    def noreturn(self, name, ref, n):
        if name in ('abort', 'exit', '_Exit', 'terminate', 'quick_exit', '__builtin_unreachable', '__builtin_trap',
                    'unreachable', 'LogFatal', 'ShimAbort'):
            return True
        d = self.tu.decl.get(ref.get('id'))
        t = sugar(d) if d else ((strip(kids(n)[0]).get('referencedDecl') or {}).get('type') or {}).get('qualType', '')
        return 'noreturn' in t

    def optional_model(self, name, n, recv, args, st, fr, want_lvalue):
        if recv is None or recv[0] == 'val':
            return None
        e = strip(kids(n)[0])
        if n['kind'] == 'CXXMemberCallExpr' and kids(e):
            t = ty(kids(e)[0])
        elif n['kind'] == 'CXXOperatorCallExpr':
            t = ty(kids(n)[1])
        else:
            return None
        if not (OPTIONAL.match(t.rstrip(' *')) or '_Optional' in t):
            return None
        v = self.load(recv, n, st, fr)
        if name in ('has_value', 'operator bool'):
            if v[0] in ('some', 'none'):
                return [(('c', int(v[0] == 'some')), st)]
            return [(('t', 'has', self.unmoved(v)), st)]
        if name in ('value', 'operator*', 'operator->', 'get'):
            p = ('fld', recv, '*')
            if p not in st.store:
                st.store[p] = v[1] if v[0] == 'some' else ('t', 'val', v)
            if want_lvalue:
                return [(('loc', p), st)]
            return [(('loc', p) if name == 'operator->' else st.store[p], st)]
        if name == 'reset':
            self.write(recv, ('none',), n, st, fr)
            return [(('s', 'void'), st)]
        if name == 'emplace':
            val = args[0][0] if len(args) == 1 else ('t', 'init', t) + tuple(a for a, _ in args)
            self.write(recv, ('some', val), n, st, fr)
            return [(('loc', ('fld', recv, '*')) if want_lvalue else val, st)]
        if name == 'operator=' and len(args) == 1:
            v, p = args[0]
            src = kids(n)[2]
            at = ty(src)
            if 'nullopt' in at:
                w = ('none',)
            elif OPTIONAL.match(at) or v[0] in ('some', 'none'):
                w = v
            elif strip(src)['kind'] == 'InitListExpr' and not kids(strip(src)):
                w = ('none',)
            else:
                w = ('some', v)
            self.write(recv, w, n, st, fr)
            self.moved(src, p, v, n, st, fr)
            return [(('loc', recv) if want_lvalue else w, st)]
        return None

    @staticmethod
    def unmoved(v):
        while v[0] == 't' and v[1] == 'moved':
            v = v[2]
        return v

    # ---- construction ------------------------------------------------------------------
    def construct(self, n, st, fr):
        t = ty(n)
        a = kids(n)
        out = []
        for args, s in self.args(a, None, st, fr):
            r = self.on_construct(t, n, args, s, fr)
            if r is not None:
                out += r if isinstance(r, list) else [(r, s)]
                continue
            if OPTIONAL.match(t):
                if not args:
                    out.append((('none',), s)); continue
                if len(args) == 1:
                    v, p = args[0]
                    at = ty(a[0])
                    if 'nullopt' in at:
                        out.append((('none',), s)); continue
                    if OPTIONAL.match(at) or v[0] in ('some', 'none'):
                        self.moved(a[0], p, v, n, s, fr)
                        out.append((v, s)); continue
                    self.moved(a[0], p, v, n, s, fr)
                    out.append((('some', v), s)); continue
            if len(args) == 1 and (self.same_type(t, ty(a[0])) or self.wrapper(t)):
                v, p = args[0]
                self.moved(a[0], p, v, n, s, fr)
                out.append((v, s)); continue
            if not args:
                out.append((self.default_value(t), s)); continue
            out.append((('t', 'init', t) + tuple(v for v, p in args), s))
        return out

    def wrapper(self, t):
        """Class types that merely hold what they are constructed from."""
        return bool(re.match(r'^(const )?(std::)?(function|move_only_function|unique_ptr|shared_ptr)<|.*not_null<', t))

    @staticmethod
    def same_type(a, b):
        f = lambda x: re.sub(r'\b(const|class|struct) ', '', x).rstrip('& ').strip()
        return f(a) == f(b)

    # ---- statements ---------------------------------------------------------------------
    def run_function(self, d, args, fr, st, want_lvalue=False):
        params = [c for c in kids(d) if c['kind'] == 'ParmVarDecl']
        for i, p in enumerate(params):
            path = ('var', p['id'], fr.ctx)
            if i < len(args):
                v, src = args[i]
                if is_ref(sugar(p)) or is_ref(ty(p)):
                    if src is None:
                        src = ('tmp', p['id'], fr.ctx)
                        self.forget(src, st, v)
                    st.alias[path] = src
                else:
                    self.forget(path, st, v)
                    if src is not None:
                        for q, w in list(st.store.items()):
                            if q != src and self.under(q, src):
                                st.store[self.rebase(q, src, path)] = w
            else:
                self.forget(path, st, ('s', 'default', p['id']))
        body = TU.body_of(d)
        out = []
        starts = [st]
        for init in kids(d):
            if init['kind'] == 'CXXCtorInitializer':
                nxt = []
                for s in starts:
                    for e in kids(init):
                        f = (init.get('anyInit') or {}).get('name')
                        for v, s2 in self.eval_any(e, s, fr):
                            if f:
                                self.write(('fld', fr.this, f), v, init, s2, fr)
                            nxt.append(s2)
                starts = nxt or starts
        ret_ref = self.returns_ref(d)
        for s0 in starts:
            for kind, v, s in self.exec(body, s0, fr, ret_ref=ret_ref):
                if kind in ('next', 'return'):
                    if v is None:
                        v = ('s', 'void')
                    if ret_ref and not want_lvalue and v[0] == 'loc':
                        v = self.peek(v[1], s, fr)
                    # Temporaries and locals of the frame are dead.
                    out.append((v, s))
        return self.dedup(out)

    @staticmethod
    def returns_ref(d):
        t = sugar(d)
        m = re.match(r'^auto (?:\(.*\)|.*?) -> (.*)$', t)
        if m and '->' in t:
            return is_ref(t.split('->')[-1].strip())
        return bool(re.match(r'^[^(]*&&? ?\(', t)) or bool(re.match(r'^.*[>\w] &&? ?\(.*\)( const)?( noexcept)?$', t) and not t.startswith('void'))

    def dedup(self, out):
        seen, res = set(), []
        for v, s in out:
            k = (v, s.key())
            if k not in seen:
                seen.add(k)
                res.append((v, s))
        self.bound(res)
        return res

    def dedup3(self, out):
        if len(out) < 2:
            return out
        seen, res = set(), []
        for k, v, s in out:
            key = (k, v, s.key())
            if key not in seen:
                seen.add(key)
                res.append((k, v, s))
        self.bound(res)
        return res

    def seq(self, stmts, st, fr, ret_ref):
        """Executes a list of statements in a scope."""
        scope = []
        cur = [st]
        out = []
        for x in stmts:
            nxt = []
            for s in cur:
                for kind, v, s2 in self.exec(x, s, fr, scope, ret_ref):
                    if kind == 'next':
                        nxt.append(s2)
                    else:
                        out.append((kind, v, s2))
            cur = [s for _, _, s in self.dedup3([('next', None, s) for s in nxt])]
            if not cur:
                break
        out += [('next', None, s) for s in cur]
        for kind, v, s in out:
            self.leave(scope, s, fr)
        return self.dedup3(out)

    def leave(self, scope, s, fr):
        for var in reversed(scope):
            path = ('var', var['id'], fr.ctx)
            # Only those that were reached on this path.
            if path in s.store or path in s.alias:
                self.on_scope_exit(var, s.alias.get(path, path), s, fr)
        for var in scope:
            path = ('var', var['id'], fr.ctx)
            s.alias.pop(path, None)
            self.forget(path, s)

    def exec(self, n, st, fr, scope=None, ret_ref=False):
        k = n.get('kind')
        if k is None or k == 'NullStmt':
            return [('next', None, st)]
        if k == 'CompoundStmt':
            return self.seq(kids(n), st, fr, ret_ref)
        if k == 'DeclStmt':
            cur = [st]
            for d in kids(n):
                if d['kind'] in ('VarDecl', 'DecompositionDecl'):
                    cur = [s2 for s in cur for s2 in self.declare(d, s, fr)]
                    if scope is not None and not d.get('storageClass') == 'static':
                        scope.append(d)
            return [('next', None, s) for s in cur]
        if k == 'ReturnStmt':
            c = kids(n)
            if not c:
                return [('return', ('s', 'void'), st)]
            if ret_ref and c[0].get('valueCategory') in ('lvalue', 'xvalue'):
                return [('return', ('loc', p), s) for p, s in self.lvalue(c[0], st, fr)]
            return [('return', v, s) for v, s in self.eval_any(c[0], st, fr)]
        if k == 'IfStmt':
            return self.exec_if(n, st, fr, ret_ref)
        if k in ('WhileStmt', 'ForStmt', 'DoStmt', 'CXXForRangeStmt'):
            return self.loop(n, st, fr, ret_ref)
        if k == 'BreakStmt':
            return [('break', None, st)]
        if k == 'ContinueStmt':
            return [('continue', None, st)]
        if k == 'SwitchStmt':
            return self.switch(n, st, fr, ret_ref)
        if k in ('CaseStmt', 'DefaultStmt'):
            return self.exec(kids(n)[-1], st, fr, scope, ret_ref)
        if k == 'CXXTryStmt':
            out = self.exec(kids(n)[0], st, fr, scope, ret_ref)
            return out
        if k in ('LabelStmt', 'AttributedStmt'):
            return self.exec(kids(n)[-1], st, fr, scope, ret_ref)
        if k in ('StaticAssertDecl', 'UsingDecl', 'TypedefDecl', 'GCCAsmStmt', 'MSAsmStmt'):
            return [('next', None, st)]
        if k == 'GotoStmt':
            raise Broken('goto is not supported')
        return [('next', None, s) for _, s in self.eval_any(n, st, fr)]

    def declare(self, d, st, fr):
        path = ('var', d['id'], fr.ctx)
        init = [c for c in kids(d) if not c['kind'].endswith(('Decl', 'Attr', 'Comment'))]
        if d['kind'] == 'DecompositionDecl':
            out = []
            for p, s in (self.lvalue(init[0], st, fr) if init else [(path, st)]):
                for i, b in enumerate(c for c in kids(d) if c['kind'] == 'BindingDecl'):
                    s.alias[('var', b['id'], fr.ctx)] = ('fld', p, '#%d' % i)
                out.append(s)
            return out
        if not init:
            v = ('s', 'uninit', d['id']) if not self.is_class(ty(d)) else self.default_value(ty(d))
            self.forget(path, st, v)
            self.on_declare(d, path, v, st, fr)
            return [st]
        if is_ref(sugar(d)) or is_ref(ty(d)):
            out = []
            for p, s in self.lvalue(init[0], st, fr):
                s.alias[path] = p
                self.on_declare(d, path, None, s, fr)
                out.append(s)
            return out
        out = []
        for v, s in self.eval_any(init[0], st, fr):
            self.forget(path, s, v)
            # Keep the parts of a copied object.
            src = strip(init[0])
            self.on_declare(d, path, v, s, fr)
            out.append(s)
        return out

    def exec_if(self, n, st, fr, ret_ref):
        inner = kids(n)
        scope = []
        cur = [st]
        i = 0
        if n.get('hasInit'):
            nxt = []
            for s in cur:
                for _, _, s2 in self.exec(inner[0], s, fr, scope):
                    nxt.append(s2)
            cur = nxt
            i = 1
        if n.get('isConstexpr') and inner[i]['kind'] == 'ConstantExpr' and 'value' in inner[i]:
            t = inner[i]['value'] in ('true', '1', True)
            br = inner[i + 1] if t else (inner[i + 2] if n.get('hasElse') and len(inner) > i + 2 else None)
            out = []
            for s in cur:
                out += self.exec(br, s, fr, None, ret_ref) if br else [('next', None, s)]
            return out
        if n.get('hasVar'):
            nxt = []
            for s in cur:
                for _, _, s2 in self.exec(inner[i], s, fr, scope):
                    nxt.append(s2)
            cur = nxt
            i += 1
        out = []
        for s in cur:
            for t, s2 in self.branch(inner[i], s, fr):
                if t:
                    out += self.exec(inner[i + 1], s2, fr, None, ret_ref)
                elif n.get('hasElse'):
                    out += self.exec(inner[i + 2], s2, fr, None, ret_ref)
                else:
                    out.append(('next', None, s2))
        for kind, v, s in out:
            self.leave(scope, s, fr)
        return self.dedup3(out)

    def switch(self, n, st, fr, ret_ref):
        inner = kids(n)
        i = int(bool(n.get('hasInit'))) + int(bool(n.get('hasVar')))
        pre, cond, body = inner[:i], inner[i], inner[-1]
        scope = []
        cur = [st]
        for p in pre:
            cur = [s2 for s in cur for _, _, s2 in self.exec(p, s, fr, scope)]
        # Flatten the body into a list of (labels, statement).
        flat = []

        def flatten(x, labels):
            if x['kind'] in ('CaseStmt', 'DefaultStmt'):
                lab = ('default',) if x['kind'] == 'DefaultStmt' else ('case', kids(x)[0])
                flatten(kids(x)[-1], labels + [lab])
            else:
                flat.append((labels, x))
        for x in kids(body):
            flatten(x, [])
        out = []
        has_default = any(l == ('default',) for ls, _ in flat for l in ls)
        for s in cur:
            for v, s1 in self.eval_any(cond, s, fr):
                entries = [(j, l) for j, (ls, _) in enumerate(flat) for l in ls]
                negatives = []
                todo = []
                for j, l in entries:
                    if l[0] == 'case':
                        for cv, _ in self.eval_any(l[1], s1.copy(), fr):
                            todo.append((j, self.arith('==', v, cv)))
                for j, term in todo:
                    s2 = s1.copy()
                    if self.assume(term, True, cond, s2, fr):
                        out += self.seq([x for _, x in flat[j:]], s2, fr, ret_ref)
                s2 = s1.copy()
                ok = all(self.assume(term, False, cond, s2, fr) for _, term in todo)
                if ok:
                    d = next((j for j, l in entries if l == ('default',)), None)
                    if d is None:
                        out.append(('next', None, s2))
                    else:
                        out += self.seq([x for _, x in flat[d:]], s2, fr, ret_ref)
        res = []
        for kind, v, s in out:
            self.leave(scope, s, fr)
            res.append(('next' if kind == 'break' else kind, v, s))
        return self.dedup3(res)

    # ---- loops -----------------------------------------------------------------------------
    def loop(self, n, st, fr, ret_ref):
        raw = n.get('inner', [])
        k = n['kind']
        scope = []
        init = cond = inc = body = None
        var = None
        if k == 'ForStmt':
            raw = list(raw) + [{}] * (5 - len(raw))
            init, cvar, cond, inc, body = raw[:5]
        elif k == 'WhileStmt':
            c = kids(n)
            if n.get('hasVar'):
                var, cond, body = c[0], c[1], c[2]
            else:
                cond, body = c[0], c[1]
        elif k == 'DoStmt':
            body, cond = kids(n)[:2]
        elif k == 'CXXForRangeStmt':
            c = kids(n)
            # [init] range begin end cond inc loopvar body
            body, var = c[-1], c[-2]
            inc, cond = c[-3], c[-4]
            pre = c[:-4]
        cur = [st]
        if k == 'ForStmt' and init:
            cur = [s2 for s in cur for _, _, s2 in self.exec(init, s, fr, scope)]
        if k == 'CXXForRangeStmt':
            for p in pre:
                cur = [s2 for s in cur for kk, _, s2 in self.exec(p, s, fr, scope)]
        out = []
        for s in cur:
            out += self.loop1(n, k, var, cond, inc, body, s, fr, ret_ref)
        for kind, v, s in out:
            self.leave(scope, s, fr)
        return self.dedup3(out)

    def iterate(self, n, k, var, cond, inc, body, st, fr, ret_ref, first):
        """One iteration; yields (kind, value, state), where 'again' is a back
        edge and 'next' leaves the loop."""
        out = []
        entry = [(True, st)]
        if not (k == 'DoStmt'):
            if k == 'WhileStmt' and var is not None:
                entry = []
                for s in self.declare(kids(var)[0] if var['kind'] == 'DeclStmt' else var, st, fr):
                    entry += self.branch(cond, s, fr)
            elif cond:
                entry = self.branch(cond, st, fr)
        for t, s in entry:
            if not t:
                out.append(('next', None, s)); continue
            stmts = ([var] if k == 'CXXForRangeStmt' else []) + [body]
            for kind, v, s2 in self.seq(stmts, s, fr, ret_ref):
                if kind == 'break':
                    out.append(('next', None, s2))
                elif kind == 'return':
                    out.append((kind, v, s2))
                else:
                    if k == 'DoStmt':
                        for t2, s3 in self.branch(cond, s2, fr):
                            out.append(('again' if t2 else 'next', None, s3))
                    elif inc:
                        for _, s3 in self.eval_any(inc, s2, fr):
                            out.append(('again', None, s3))
                    else:
                        out.append(('again', None, s2))
        return out

    def loop1(self, n, k, var, cond, inc, body, st, fr, ret_ref):
        # First iteration: from the state at the entry, precisely.
        out = []
        parts = (n, k, var, cond, inc, body)
        first = self.iterate(*parts, st.copy(), fr, ret_ref, True)
        back = [s for kind, v, s in first if kind == 'again']
        out += [(kind, v, s) for kind, v, s in first if kind != 'again']
        if not back:
            return out
        # Further iterations: keep what every back edge and the entry agree
        # upon, forget the rest, and iterate on the monitor.
        seen = set()
        base = None
        rounds = 0
        todo = back
        while todo:
            rounds += 1
            if rounds > 60:
                raise Broken('loop fixpoint does not converge at %s' % astlib.where(n))
            cand = [st] + todo if base is None else [base] + todo
            base2 = self.join(cand, n, fr)
            mons = {s.mon for s in todo}
            nxt = []
            changed = base is None or base2.key()[:2] != base.key()[:2]
            base = base2
            if changed:
                mons |= {m for m in seen}
                seen = set()
            for m in sorted(mons, key=repr):
                if m in seen:
                    continue
                seen.add(m)
                s = base.copy()
                s.mon = m
                for kind, v, s2 in self.iterate(*parts, s, fr, ret_ref, False):
                    if kind == 'again':
                        nxt.append(s2)
                    else:
                        out.append((kind, v, s2))
            todo = [s for s in nxt if s.mon not in seen or not self.covered(s, base)]
        return self.dedup3(out)

    def covered(self, s, base):
        return all(s.store.get(p) == v or v[0] == 's' and v[1] == 'loop' for p, v in base.store.items()) and \
            all(s.conds.get(t) == v for t, v in base.conds.items())

    def join(self, states, n, fr):
        b = states[0].copy()
        paths = set()
        for s in states:
            paths |= set(s.store)
        for p in paths:
            vs = {s.store.get(p) for s in states}
            if len(vs) > 1:
                if all(p in s.store for s in states) or p in b.store:
                    b.store[p] = ('s', 'loop', n['id'], p)
                else:
                    # Unknown in some of them.
                    self.forget(p, b)
                    b.store[p] = ('s', 'loop', n['id'], p)
        # An assumption about a symbol of the loop body must not survive.
        b.conds = {t: v for t, v in b.conds.items() if all(s.conds.get(t) == v for s in states)}
        b.alias = {p: v for p, v in b.alias.items()}
        return b

    # ---- entry ------------------------------------------------------------------------------
    def run(self, d, mon, this=('this',), args=None):
        st = State()
        st.mon = mon
        fr = Frame(d['id'], this, (), None)
        params = [c for c in kids(d) if c['kind'] == 'ParmVarDecl']
        argv = []
        for p in params:
            path = ('param', p.get('name') or p['id'])
            argv.append((('s', 'param', p.get('name') or p['id']), path))
        for (v, p) in argv:
            st.store[p] = v
        return self.run_function(d, args if args is not None else argv, fr, st)
