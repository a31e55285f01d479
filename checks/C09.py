#!/usr/bin/env python3
import json, os, re, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(HERE, '..', 'lib')]
import cxx, flow, protodesc, vlib
from cxx import match, split_args, angle
from vlib import Broken

RULE = ('Every function of the production code that takes, creates or receives a serialized message is analysed: the '
        'accesses to message fields are typed with the descriptors of the schema, and a dataflow on the statements '
        'relates each field to the members of the object from which it is written and to which it is restored, '
        'constructors, setters and accessors included.')

DESC = None
NS = 'principia.serialization.'
TABLE = os.path.join(HERE, '..', 'tables', 'legacy_fields.json')


def schema():
    global DESC
    if DESC is None:
        d = protodesc.load()
        DESC = d['messages']
        for m in DESC.values():
            m['by'] = {f['name']: f for f in m['fields']}
            m['acc'] = {f['name'].lower(): f for f in m['fields']}
        DESC['__ext__'] = d['extensions']
    return DESC


def message_type(toks):
    """The message type named by a C++ type, if any: serialization::X::Y."""
    toks = [t for t in toks]
    for i, t in enumerate(toks):
        if t == 'serialization' and i + 1 < len(toks) and toks[i + 1] == '::':
            parts, j = [], i + 2
            while j < len(toks) and toks[j].kind == 'id':
                parts.append(str(toks[j]))
                if j + 1 < len(toks) and toks[j + 1] == '::':
                    j += 2
                else:
                    break
            q = NS + '.'.join(parts)
            if q in schema():
                return q
            q = NS + '.'.join(p.replace('_', '.') for p in parts)
            if q in schema():
                return q
    return None


def subscript(toks, i):
    """The constant subscript at i, in a canonical form."""
    if toks[i:i + 1] == ['['] and toks[i + 2:i + 3] == [']']:
        t = {'X': '0', 'Y': '1', 'Z': '2'}.get(str(toks[i + 1]), str(toks[i + 1]))
        if t.isdigit():
            return '[%s]' % t
    return ''


class Analysis:
    """The accesses to message fields of one function."""

    def __init__(self, f, program):
        self.f, self.program = f, program
        self.msg = {}         # variable -> (message type or None, path)
        self.taint = {}       # variable -> set of atoms
        self.writes = []      # (path, atoms, guards, token)
        self.reads = []       # (path, token, guards)
        self.sinks = []       # (member, atoms)
        self.delegated = set()
        self.bools = {}
        self.is_reader = any(message_type(ty) and 'const' in ty and '&' in ty and ('>' not in ty) for _, ty in f.params) \
            or any('RepeatedPtrField' in ty and 'const' in ty and '&' in ty for _, ty in f.params)
        for name, ty in f.params:
            m = message_type(ty)
            if name is not None and (m or any(t == 'Message' for t in ty) and any(t in ('*', '&') for t in ty)):
                self.msg[str(name)] = (m, ())
        for name, ty in f.params:
            if name is not None and str(name) not in self.msg and 'RepeatedPtrField' in ty:
                self.msg[str(name)] = (None, ())
        self.lambda_params(f.body)
        self.body = flow.alpha(flow.statements(f.body))
        # To a fixed point on the variables.
        for _ in range(4):
            before = ({k: frozenset(v) for k, v in self.taint.items()}, dict(self.msg))
            self.writes, self.reads, self.sinks = [], [], []
            for kind, toks, guards in flow.walk(self.body):
                self.step(kind, toks, guards)
            for member, args in f.inits:
                self.expression(args, ())
            if ({k: frozenset(v) for k, v in self.taint.items()}, dict(self.msg)) == before:
                break

    def lambda_params(self, toks):
        """The parameters of lambdas whose type is a message."""
        i, n = 0, len(toks)
        while i < n:
            if toks[i] == 'serialization' and i + 1 < n and toks[i + 1] == '::':
                m = message_type(toks[i:i + 12])
                j = i + 1
                while j + 1 < n and toks[j] == '::' and toks[j + 1].kind == 'id':
                    j += 2
                while j < n and toks[j] in ('const', '*', '&', '>', '&&'):
                    j += 1
                if m and j + 1 < n and toks[j].kind == 'id' and toks[j + 1] in (')', ','):
                    self.msg.setdefault(str(toks[j]), (m, ()))
                i = j
            i += 1

    # Access chains.

    def chain(self, toks, i):
        """Parses an access chain that starts at the identifier i; returns (end, type, path, op, args) or None."""
        name = str(toks[i])
        if name not in self.msg:
            return None
        if i and toks[i - 1] in ('.', '->', '::'):
            return None
        ty, path = self.msg[name]
        j = i + 1
        op, args, touched = None, [], []
        while j + 2 < len(toks) + 1 and j < len(toks):
            if toks[j] == ')' :
                # (*message->mutable_f())[k]
                break
            if toks[j] == '[':
                k = match(toks, j)
                args = args + [toks[j + 1:k]]
                j = k + 1
                continue
            if toks[j] not in ('->', '.') or j + 1 >= len(toks):
                break
            a = j + 1
            if toks[a] == 'template':
                a += 1
            acc = str(toks[a])
            p = a + 1
            if p < len(toks) and toks[p] == '<':
                p = (angle(toks, p) or p) + 1
            if p >= len(toks) or toks[p] != '(':
                break
            k = match(toks, p)
            cargs = split_args(toks[p + 1:k])
            if acc in ('MutableExtension', 'GetExtension', 'HasExtension'):
                et = message_type(cargs[0]) or (message_type(list(cargs[0][:-2])) if cargs else None)
                path = path + (('ext', et),)
                touched.append((path, {'MutableExtension': 'w', 'GetExtension': 'r', 'HasExtension': 'has'}[acc]))
                ty = et
                j = k + 1
                continue
            fld, op2 = self.accessor(ty, acc)
            if fld is None:
                if acc in ('Reserve', 'size', 'empty', 'begin', 'end', 'rbegin', 'rend', 'cbegin', 'cend', 'get', 'value',
                           'at', 'find', 'contains', 'back', 'front', 'data', 'substr', 'Get', 'second', 'first'):
                    j = k + 1
                    continue
                if acc in ('Add', 'Mutable', 'Swap', 'AddAllocated', 'insert', 'emplace', 'append', 'assign', 'swap',
                           'CopyFrom', 'MergeFrom', 'push_back'):
                    touched.append((path, 'w'))
                    args = args + cargs
                    j = k + 1
                    continue
                break
            path = path + ((ty, fld),)
            touched.append((path, op2))
            args = args + cargs
            ty = self.field_type(ty, fld)
            j = k + 1
            op = op2
        if not touched:
            return (i + 1, ty, path, None, [], [])
        return (j, ty, path, op, args, touched)

    def accessor(self, ty, acc):
        for pre, op in (('mutable_', 'w'), ('add_', 'w'), ('set_allocated_', 'w'), ('set_', 'w'), ('clear_', 'clear'),
                        ('has_', 'has'), ('release_', 'r'), ('', 'r')):
            if acc.startswith(pre):
                n = acc[len(pre):]
                for suffix, o in (('', op), ('_size', 'has'), ('_case', 'has')):
                    if suffix and not n.endswith(suffix):
                        continue
                    m = n[:len(n) - len(suffix)] if suffix else n
                    if ty is None:
                        if pre or suffix or m in self.program.field_names:
                            if m in self.program.field_names:
                                return m, o
                        continue
                    f = schema()[ty]['acc'].get(m.lower()) or schema()[ty]['acc'].get(m.rstrip('_').lower())
                    if f is not None:
                        return f['name'], o
                    if any(x['oneof'] == m for x in schema()[ty]['fields']) and suffix == '_case':
                        return None, o
        return None, None

    def field_type(self, ty, fld):
        if ty is None:
            return None
        f = schema()[ty]['by'][fld]
        t = f['type_name']
        if t in DESC and DESC[t]['options'].get('7') in (1, True) or t in DESC and t.endswith('Entry'):
            v = DESC[t]['by'].get('value')
            return v['type_name'] if v and v['type_name'] in DESC else None
        return t if t in DESC else None

    # Statements.

    def atoms(self, toks, skip=()):
        """The atoms of an expression: field paths read, members of the class, values of the variables."""
        out = set()
        i = 0
        while i < len(toks):
            t = toks[i]
            if t.kind == 'id':
                c = self.chain(toks, i)
                if c is not None and c[5]:
                    for path, op in c[5]:
                        if op in ('r', 'has'):
                            out.add(('f',) + path)
                    for a in c[4]:
                        out |= self.atoms(a)
                    i = max(c[0], i + 1)
                    continue
                prev = toks[i - 1] if i else ''
                if prev not in ('.', '->', '::') and toks[i + 1:i + 2] in (['.'], ['->']) and i + 2 < len(toks) and \
                        str(toks[i + 2]) in self.program.members(self.f.cls):
                    i += 1
                    continue
                if str(t) in self.msg and prev not in ('.', '->', '::'):
                    ty, path = self.msg[str(t)]
                    if path:
                        out.add(('f',) + path)
                elif prev in ('.', '->'):
                    if i + 1 < len(toks) and toks[i + 1] == '(' and i >= 2 and toks[i - 2] == 'this':
                        out |= self.program.accessor_members(self.f.cls, str(t))
                    elif i >= 2 and toks[i - 2] == 'this':
                        out.add(('m', str(t)))
                    elif str(t).endswith('_'):
                        out.add(('m', str(t)))
                elif prev != '::' and str(t) in self.taint:
                    out |= self.taint[str(t)]
                elif prev != '::' and str(t) in self.program.members(self.f.cls):
                    out.add(('m', str(t) + subscript(toks, i + 1)))
                elif prev != '::' and i + 1 < len(toks) and toks[i + 1] == '(':
                    out |= self.program.accessor_members(self.f.cls, str(t))
            i += 1
        return out

    def expression(self, toks, guards):
        """Records the accesses of an expression."""
        d = 0
        for q, t in enumerate(toks):
            if t == '?' and t.kind == 'op':
                # The condition starts after the enclosing bracket or separator.
                b = q - 1
                while b >= 0 and not (toks[b].kind == 'op' and toks[b] in ('(', ',', '{', '=', '[', ';')):
                    if toks[b] in cxx.CLOSE and toks[b].kind == 'op':
                        b = cxx.match_back(toks, b)
                    b -= 1
                cond = toks[b + 1:q]
                # The colon.
                e, depth = q + 1, 0
                while e < len(toks):
                    if toks[e].kind == 'op' and toks[e] in cxx.OPEN:
                        e = match(toks, e)
                    elif toks[e] == '?':
                        depth += 1
                    elif toks[e] == ':':
                        if depth == 0:
                            break
                        depth -= 1
                    e += 1
                z = e + 1
                while z < len(toks) and not (toks[z].kind == 'op' and toks[z] in (')', ',', '}', ']', ';')):
                    if toks[z].kind == 'op' and toks[z] in cxx.OPEN:
                        z = match(toks, z)
                    z += 1
                self.plain(toks[:q], guards, toks)
                self.expression(toks[q + 1:e], guards + (('if', cond),))
                self.expression(toks[e + 1:z], guards + (('else', cond),))
                self.expression(toks[z:], guards)
                return
        self.plain(toks, guards, toks)

    def truth(self, toks, depth=0):
        """The value that a condition has for a message as currently written: True, False or None."""
        toks = list(toks)
        if ';' in toks:
            toks = toks[len(toks) - toks[::-1].index(';'):]
        while toks and toks[0] == '(' and match(toks, 0) == len(toks) - 1:
            toks = toks[1:-1]
        for op in ('||', '&&'):
            parts, cur, i = [], [], 0
            while i < len(toks):
                if toks[i].kind == 'op' and toks[i] in cxx.OPEN:
                    k = match(toks, i)
                    cur += toks[i:k + 1]
                    i = k + 1
                    continue
                if toks[i] == op and toks[i].kind == 'op':
                    parts.append(cur)
                    cur = []
                else:
                    cur.append(toks[i])
                i += 1
            parts.append(cur)
            if len(parts) > 1:
                v = [self.truth(p, depth) for p in parts]
                if op == '||':
                    return True if True in v else None if None in v else False
                return False if False in v else None if None in v else True
        if toks and toks[0] == '!':
            v = self.truth(toks[1:], depth)
            if v is None and self.program.old and len(toks) > 1 and toks[1].kind == 'id':
                c = self.chain(toks, 1)
                if c is not None and c[0] == len(toks) and c[5] and c[5][-1][1] == 'has' and \
                        c[5][-1][0][-1] in self.program.always:
                    return True
            return None if v is None else not v
        if len(toks) == 1 and str(toks[0]) in self.bools and depth < 8:
            return self.truth(self.bools[str(toks[0])], depth + 1)
        if toks and toks[0].kind == 'id':
            c = self.chain(toks, 0)
            if c is not None and c[5] and c[5][-1][1] == 'has' and \
                    (c[0] == len(toks) or toks[c[0]:c[0] + 1] and toks[c[0]] in ('>', '!=', '==')):
                v = self.program.presence(c[5][-1][0][-1])
                if c[0] < len(toks):
                    if list(map(str, toks[c[0] + 1:])) != ['0']:
                        return None
                    return None if v is None or v is True else (toks[c[0]] == '==')
                return v
        return None

    def dead(self, guards):
        for k, cond in guards:
            if k in ('if', 'else'):
                v = self.truth(cond)
                if v is not None and v == (k == 'else'):
                    return True
        return False

    def plain(self, toks, guards, whole):
        i = 0
        while i < len(toks):
            if toks[i].kind == 'id' and str(toks[i]) in self.msg:
                c = self.chain(toks, i)
                if c is not None and c[5]:
                    for path, op in c[5]:
                        if op == 'w':
                            self.writes.append((path, self.write_atoms(whole), guards, toks[i]))
                        elif op in ('r', 'has'):
                            self.reads.append((path, toks[i], guards, op))
                    for a in c[4]:
                        self.expression(a, guards)
                    i = max(c[0], i + 1)
                    continue
                if toks[i - 1:i] not in (['.'], ['->']):
                    nxt = toks[i + 1] if i + 1 < len(toks) else ''
                    if nxt in (',', ')', '}') or i + 1 == len(toks):
                        self.delegated.add(str(toks[i]))
            i += 1

    def write_atoms(self, toks):
        return {a for a in self.atoms(toks) if a[0] == 'm'}

    def step(self, kind, toks, guards):
        if kind == 'label':
            return
        d = flow.declared(toks) if kind in ('stmt', 'loop', 'cond', 'switch') else None
        if kind == 'loop' and d is None and ';' in toks:
            first = toks[:toks.index(';')]
            d = flow.declared(first)
        if d is not None:
            names, init, ty = d
            if 'bool' in ty and len(names) == 1:
                self.bools[str(names[0])] = init
            a = self.atoms(init)
            # An alias of a (sub)message.
            al = None
            x = [t for t in init]
            while x and x[0] in ('*', '&', '(', 'std', '::', 'move'):
                x = x[1:]
            if x and x[0].kind == 'id' and str(x[0]) in self.msg:
                c = self.chain(x, 0)
                if c is not None:
                    rest = [t for t in x[c[0]:] if t != ')']
                    if not rest or rest[0] in ('[',) or rest[0] == '->' and False:
                        al = (c[1], c[2])
                    elif c[5] and rest and rest[0] == '.' and rest[1:2] and rest[1] in ('begin', 'cbegin', 'find'):
                        al = (c[1], c[2])
            m = message_type(ty)
            if al == (None, ()) and kind == 'loop' and len(names) == 1:
                self.msg[str(names[0])] = al
            elif al is not None and (al[0] is not None or al[1]) and len(names) == 1:
                if al[1] or al[0]:
                    self.msg[str(names[0])] = al
            elif al is not None and len(names) == 2 and al[0] is not None:
                self.msg[str(names[1])] = al
            elif m is not None and len(names) == 1 and '<' not in ty:
                self.msg.setdefault(str(names[0]), (m, ()))
            # The object under construction: what it holds is known by its members.
            if self.f.cls and any(t == self.f.cls.split('::')[-1] for t in init[:8] if t.kind == 'id') and \
                    self.is_reader and not any(str(t) == 'ReadFromMessage' for t in init[:8]):
                a = set()
            # A reference to a part of a message through another function.
            for nme in names:
                if str(nme) not in self.msg:
                    self.taint.setdefault(str(nme), set()).update(a)
            self.expression(init, guards)
            return
        self.expression(toks, guards)
        if kind != 'stmt' or not toks:
            return
        # Assignments and mutations of variables and members.
        depth = 0
        for i, t in enumerate(toks):
            if t.kind == 'op' and t in ('=', '+=', '|=') and depth == 0:
                lhs, rhs = toks[:i], toks[i + 1:]
                a = self.atoms(rhs) | {x for x in self.atoms(lhs) if x[0] == 'f'}
                self.assign(lhs, a)
                break
            if t.kind == 'op' and t in '([{':
                depth += 1
            elif t.kind == 'op' and t in ')]}':
                depth -= 1
        else:
            # x.push_back(e), x.emplace(...), x->set(e): the receiver gets the arguments.
            if toks[0].kind == 'id' or toks[0] in ('(', '*'):
                for i, t in enumerate(toks):
                    if t == '(' and i >= 3 and toks[i - 1].kind == 'id' and toks[i - 2] in ('.', '->'):
                        k = match(toks, i)
                        a = self.atoms(toks[i + 1:k])
                        self.assign(toks[:i - 2], a, method=str(toks[i - 1]))
                        break
                    if t == '(' and i >= 1 and toks[i - 1].kind == 'id' and i == 1:
                        break
        # By-reference arguments of free functions: the variables among the arguments may get the fields among them.
        taint, self.taint = self.taint, {}
        fs = {x for x in self.atoms(toks) if x[0] == 'f'}
        self.taint = taint
        if fs:
            for i, t in enumerate(toks):
                if t.kind == 'id' and str(t) in self.taint and toks[i + 1:i + 2] in ([','], [')']):
                    self.taint[str(t)] |= fs

    def assign(self, lhs, a, method=None):
        ids = [t for t in lhs if t.kind == 'id']
        if not ids:
            return
        root = str(ids[0])
        if root == 'this' and len(ids) > 1:
            root = str(ids[1])
        for i, t in enumerate(lhs):
            if t.kind == 'id' and (i == 0 or lhs[i - 1] not in ('.', '->', '::')) and str(t) in self.taint and \
                    not (lhs[i + 1:i + 2] in (['.'], ['->']) and i + 2 < len(lhs) and
                         str(lhs[i + 2]) in self.program.members(self.f.cls)):
                self.taint[str(t)] |= a
        members = {str(t) for i, t in enumerate(lhs) if t.kind == 'id' and
                   (str(t) in self.program.members(self.f.cls)) and
                   (i and lhs[i - 1] in ('.', '->') or str(t) not in self.taint)}
        for m in members:
            self.sinks.append((m, a))
        if method is not None and not members:
            for m in self.program.setter_members(self.f.cls, method):
                self.sinks.append((m, a))


class Program:
    def __init__(self):
        self.functions, self.class_members, self.methods = [], {}, {}
        self.field_names = set()
        for k, m in schema().items():
            if k != '__ext__':
                self.field_names |= {f['name'] for f in m['fields']}
        self.by_file = {}
        for path in cxx.files('base', 'geometry', 'numerics', 'physics', 'integrators', 'ksp_plugin', 'quantities'):
            u = cxx.unit(path)
            for c in u.classes:
                self.class_members.setdefault(c.qname, [])
                for m in c.members:
                    if m[0] not in self.class_members[c.qname]:
                        self.class_members[c.qname].append(m[0])
                self.class_members.setdefault(c.name, self.class_members[c.qname])
            for f in u.functions:
                self.functions.append(f)
                self.methods.setdefault((f.cls, f.name), []).append(f)
        self._acc = {}
        self.always, self.legacy, self.old = {}, set(), False

    def presence(self, k):
        """Whether a message as currently written has the field."""
        if self.old:
            return True if k in self.legacy else None
        if k in self.legacy:
            return False
        if k[0] in DESC and DESC[k[0]]['by'].get(k[1], {}).get('label') == 'repeated':
            return None
        return True if self.always.get(k) else None

    def members(self, cls):
        if not cls:
            return ()
        return self.class_members.get(cls) or self.class_members.get(cls.split('::')[-1], ())

    def accessor_members(self, cls, name, depth=2):
        """The members that a method of the class mentions."""
        key = (cls, name)
        if key in self._acc:
            return self._acc[key]
        self._acc[key] = set()
        out = set()
        ms = self.members(cls)
        for f in self.methods.get(key, ()):
            for i, t in enumerate(f.body):
                if t.kind == 'id' and str(t) in ms and (i == 0 or f.body[i - 1] not in ('.', '->', '::') or
                                                         i >= 2 and f.body[i - 2] == 'this'):
                    out.add(('m', str(t)))
                elif depth and t.kind == 'id' and i + 1 < len(f.body) and f.body[i + 1] == '(' and \
                        (i == 0 or f.body[i - 1] not in ('.', '->', '::')) and str(t) != name:
                    out |= self.accessor_members(cls, str(t), depth - 1)
        self._acc[key] = out
        return out

    def setter_members(self, cls, name):
        return {m for k, m in self.accessor_members(cls, name)}

    def constructor_map(self, cls, n, used=()):
        """For a constructor with n arguments: list of the members that each argument may initialize, or None."""
        short = cls.split('::')[-1]
        cands = [f for f in self.methods.get((cls, short), []) + self.methods.get((short, short), [])
                 if self.arity(f)[0] <= n <= self.arity(f)[1] and
                 all(f.params[i][0] is not None for i in used)]
        ms = self.members(cls)
        if not cands:
            return [{m} for m in ms][:n] if len(ms) >= n and not self.methods.get((cls, short)) else None
        results = [self.one_constructor(cls, short, f, n, ms) for f in cands]
        best = [r for r in results if all(r[i] for i in used)] or results
        return [set().union(*[r[i] for r in best]) for i in range(n)]

    def one_constructor(self, cls, short, f, n, ms):
        out = [set() for _ in range(n)]
        if True:
            names = {}
            for i, (p, _) in enumerate(f.params[:n]):
                if p is not None:
                    names[str(p)] = {i}
            deleg = None
            for m, args in f.inits:
                m = str(cxx.base_name(m) or '')
                idx = set()
                for t in args:
                    idx |= names.get(str(t), set())
                if m == short:
                    # A delegating constructor.
                    for k, a in enumerate(split_args(args)):
                        inner = self.constructor_map(cls, len(split_args(args))) if f is not None and \
                            len(split_args(args)) != n else None
                        if inner:
                            for t in a:
                                for i in names.get(str(t), ()):
                                    out[i] |= inner[k]
                    continue
                if m in ms:
                    if args and args[0] == '{' and match(args, 0) == len(args) - 1:
                        # An aggregate: element by element.
                        for k, e in enumerate(split_args(args[1:-1])):
                            for t in e:
                                for i in names.get(str(t), ()):
                                    out[i].add('%s[%d]' % (m, k))
                        continue
                    for i in idx:
                        out[i].add(m)
                else:
                    # A base class: its members are not tracked.
                    for i in idx:
                        out[i].add('?')
            direct = [bool(x) for x in out]
            # Assignments in the body.
            loc = {k: set(v) for k, v in names.items()}
            for kind, toks, g in flow.walk(flow.statements(f.body)):
                if '=' in toks:
                    x = toks.index('=')
                    src = set()
                    for t in toks[x + 1:]:
                        src |= loc.get(str(t), set())
                    for t in toks[:x]:
                        if t.kind == 'id' and str(t) in ms:
                            for i in src:
                                if not direct[i]:
                                    out[i].add(str(t))
                        elif t.kind == 'id' and src and str(t) not in names:
                            loc.setdefault(str(t), set()).update(src)
                else:
                    hit = [str(t) for t in toks if t.kind == 'id' and str(t) in ms]
                    src = set()
                    for t in toks:
                        src |= loc.get(str(t), set())
                    for m in hit:
                        for i in src:
                            if not direct[i]:
                                out[i].add(m)
        return out

    def arity(self, f):
        return len(f.params), len(f.params)


def constructions(a, cls):
    """The constructions of an object of the class in a function: lists of argument tokens."""
    short = cls.split('::')[-1]
    optional = set()
    for kind, toks, guards in flow.walk(a.body):
        d = flow.declared(toks) if kind == 'stmt' else None
        if d is not None and short in d[2] and '<' in d[2]:
            optional |= {str(n) for n in d[0]}
        if a.dead(guards):
            continue
        yield from constructions_in(toks, short)
        for i, t in enumerate(toks):
            if str(t) in optional and toks[i + 1:i + 4] == ['.', 'emplace', '(']:
                yield cxx.call_args(toks, i + 3)[0], t


def constructions_in(toks, short):
    for i, t in enumerate(toks):
        if t == short and t.kind == 'id':
            j = i + 1
            if j < len(toks) and toks[j] == '<':
                k = angle(toks, j)
                if k is not None:
                    j = k + 1
            if j < len(toks) and toks[j] == '>' and i and True:
                # make_not_null_unique<Class>( ... )
                j += 1
            if j < len(toks) and toks[j].kind == 'id' and toks[j - 1] != '::' and j + 1 < len(toks) and \
                    toks[j + 1] in ('(', '{'):
                j += 1
            if j < len(toks) and toks[j] in ('(', '{'):
                k = match(toks, j)
                yield split_args(toks[j + 1:k]), t
        if t == 'return' and i + 1 < len(toks) and toks[i + 1] == '{':
            k = match(toks, i + 1)
            yield split_args(toks[i + 2:k]), t


def leaf(path):
    return path[-1]


def short(k):
    return '%s.%s' % ((k[0] or '?').replace(NS, ''), k[1])


def check(c):
    P = Program()
    table = json.load(open(TABLE))
    legacy = {tuple(x) for x in table['read_only']}
    sometimes = {tuple(x) for x in table.get("sometimes", ())}
    unread = {tuple(x) for x in table['write_only']}
    An = []
    for f in P.functions:
        if not any(t in ('serialization', 'Message', 'message', 'RepeatedPtrField') for p in f.params for t in p[1]) and \
                'serialization' not in f.body and 'message' not in f.body:
            continue
        An.append(Analysis(f, P))
    written, read, name_w, name_r = {}, {}, set(), set()
    # What is written outside of the code that reads messages.
    for a in An:
        for path, atoms, g, t in a.writes:
            if path and path[-1][0] != 'ext':
                m, n = path[-1]
                if m is None:
                    name_w.add(n)
                elif not a.is_reader:
                    written.setdefault((m, n), []).append((a, t, g))
    for k, sites in written.items():
        P.always[k] = all(not g for _, _, g in sites)
    P.legacy = legacy
    for a in An:
        for path, t, g, op in a.reads:
            if path and path[-1][0] != 'ext':
                m, n = path[-1]
                live = not a.dead(g)
                if m is None:
                    if live:
                        name_r.add(n)
                else:
                    read.setdefault((m, n), []).append((a, t, op, live))
    if '--dump' in sys.argv:
        ro = sorted(k for k in read if k not in written and k[1] not in name_w)
        wo = sorted(k for k in written if not any(o == 'r' and l for _, _, o, l in read.get(k, ())) and k[1] not in name_r)
        json.dump(dict(read_only=ro, write_only=wo), open('/tmp/legacy.json', 'w'), indent=1, ensure_ascii=False)
        print('functions', len(An), 'written', len(written), 'read', len(read), 'ro', len(ro), 'wo', len(wo))
        for k in wo:
            print('WO', short(k), written[k][0][0].f.where(written[k][0][1]), [(a.f.qname, o, l) for a, t, o, l in read.get(k, ())])
        for k in ro:
            print('RO', short(k), [a.f.qname for a, t, o, l in read[k]])
    for k, sites in sorted(written.items(), key=str):
        c.obligation(1, 'the field %s is read' % short(k))
        if not any(o == 'r' and l for _, _, o, l in read.get(k, ())) and k[1] not in name_r and k not in unread:
            a, t, _ = sites[0]
            c.violation('unread:' + short(k), a.f.where(t), 'the field %s is written but %s' % (
                short(k), 'only its presence is used' if any(l for _, _, o, l in read.get(k, ())) else
                'only read from saves older than the ones written' if k in read else 'never read'))
    for k, sites in sorted(read.items(), key=str):
        c.obligation(1, 'the field %s is written' % short(k))
        if k not in written and k[1] not in name_w and k not in legacy:
            a, t, _, _ = sites[0]
            c.violation('unwritten:' + short(k), a.f.where(t), 'the field %s is read but never written' % short(k))
    agreement(c, P, An)
    selectors(c, P, An)
    n = 0
    for a in An:
        n += required_fields(c, a, P)
    compatibility(c, P, An, sometimes)
    c.require('messages whose required fields are written', n, 40)
    c.require('fields written', len(written), 200)
    c.require('functions with message accesses', len(An), 150)


def self_legacy(a, init, i, P):
    if i >= len(init) or init[i].kind != 'id':
        return False
    ch = a.chain(init, i)
    return ch is not None and bool(ch[5]) and ch[5][-1][1] == 'has' and ch[5][-1][0][-1] in P.legacy


def compatibility(c, P, An, sometimes):
    """The variables that recognize the saves of older versions."""
    n = 0
    for a in An:
        for name, init in sorted(a.bools.items()):
            if not name.startswith('is_pre_') or not init:
                continue
            n += 1
            plain = name.split('@')[0]
            P.old = False
            v = a.truth(init)
            P.old = True
            w = a.truth(init)
            P.old = False
            c.obligation(1, '%s in %s: %s for current messages, %s for older ones' % (plain, a.f.qname, v, w))
            if '--dump' in sys.argv:
                print('PRE', a.f.qname, plain, v, w)
            if any(t == '!' and self_legacy(a, init, i + 1, P) for i, t in enumerate(init)):
                # The absence of a field that was added, and later removed: depends on other conditions.
                continue
            if v is True:
                c.violation('current:%s:%s' % (a.f.qname, plain), a.f.where(init[0]),
                            '%s holds for the messages that are currently written' % plain)
            if w is False:
                c.violation('older:%s:%s' % (a.f.qname, plain), a.f.where(init[0]),
                            '%s does not hold for a message that has none of the fields added since' % plain)
            # Absence is only conclusive if the field is always written.
            for i, t in enumerate(init):
                if t == '!' and i + 1 < len(init) and init[i + 1].kind == 'id':
                    ch = a.chain(init, i + 1)
                    if ch is not None and ch[5] and ch[5][-1][1] == 'has':
                        k = ch[5][-1][0][-1]
                        if k in P.always:
                            if '--dump' in sys.argv:
                                print('  NEED', short(k), P.always[k])
                            if not P.always[k] and v is None and k not in sometimes:
                                c.violation('absence:%s:%s' % (a.f.qname, short(k)), a.f.where(t),
                                            'the absence of %s is taken as the mark of an older message, but the '
                                            'field is not always written' % short(k))
    c.require('marks of older messages', n, 40)


FATAL = ('FATAL',)


class Must:
    """The fields written on every path, per message variable."""

    def __init__(self, c, a):
        self.c, self.a, self.n = c, a, 0
        self.missing, self.all = set(), set()
        self.delegated, self.touched, self.fresh, self.handed = set(), set(), set(), set()
        for kind, toks, g in flow.walk(a.body):
            self.all |= self.scan(toks)

    def scan(self, toks):
        """The fields written by an expression: {(variable, field)}."""
        out, i = set(), 0
        while i < len(toks):
            t = toks[i]
            if t.kind == 'id' and str(t) in self.a.msg and not (i and toks[i - 1] in ('.', '->', '::')):
                v = str(t)
                ty, base = self.a.msg[v]
                ch = self.a.chain(toks, i)
                if ch is not None and ch[5]:
                    for path, op in ch[5]:
                        if len(path) == len(base) + 1 and op == 'w' and path[-1][0] not in (None, 'ext'):
                            out.add((v, path[-1][1]))
                            self.touched.add(v)
                    i += 1
                    continue
                # Passed, assigned or captured as a whole.
                if not (toks[i + 1:i + 2] in (['->'], ['.'])) or ch is None:
                    d = flow.declared(toks)
                    if d is None or t not in d[0]:
                        self.delegated.add(v)
                        # A helper that fills a part of the message, whatever it is called.
                        b = next((j for j in range(i - 1, -1, -1) if toks[j] == '('), -1)
                        if b > 0 and not (toks[b - 1] == 'WriteToMessage' and b > 1 and toks[b - 2] in ('.', '->', '::')):
                            self.handed.add(v)
            i += 1
        return out

    def fatal(self, toks):
        return any(t in ('FATAL', 'abort') for t in toks) and not any(t in ('LOG_IF', 'DLOG_IF') for t in toks)

    def run(self, stmts, state, exits, params=()):
        declared = list(params)
        for s in stmts:
            if state is None:
                # What follows a break or a return, such as the next label.
                break
            k = s[0]
            if k == 'stmt':
                d = flow.declared(s[1])
                if d is not None:
                    declared += [str(n) for n in d[0]]
                    made = any(str(t).startswith(('add_', 'mutable_', 'MutableExtension', 'Add', 'make_')) for t in d[1])
                    root = [str(t) for t in d[1] if t.kind == 'id' and str(t) in self.a.msg]
                    if root and root[0] in self.handed:
                        self.handed |= {str(n) for n in d[0]}
                    if not d[1] or made and (not root or root[0] in self.fresh):
                        self.fresh |= {str(n) for n in d[0]}
                state = state | self.scan(s[1])
                if self.fatal(s[1]):
                    state = None
                elif s[1] and s[1][0] in ('return', 'break', 'continue'):
                    exits.append((state, list(declared)))
                    if s[1][0] != 'return' or True:
                        self.check(declared, state)
                    state = None
            elif k == 'block':
                state = self.run(s[1], state, exits)
            elif k == 'if':
                st = state | self.scan(s[1])
                x = self.run(s[2], st, exits)
                y = self.run(s[3], st, exits) if s[3] else st
                state = y if x is None else x if y is None else x & y
            elif k == 'loop':
                st = state | self.scan(s[1])
                self.run(s[2], st, exits, self.loop_vars(s[1]))
                state = st
            elif k == 'switch':
                st = state | self.scan(s[1])
                body = s[2][0][1] if s[2] and s[2][0][0] == 'block' else s[2]
                segs, cur = [], None
                for x in body:
                    if x[0] == 'label':
                        if cur or cur is None:
                            cur = []
                            segs.append(cur)
                    elif cur is not None:
                        cur.append(x)
                outs = []
                for seg in segs:
                    ex = []
                    seg = seg[0][1] if len(seg) == 1 and seg[0][0] == 'block' else seg
                    o = self.segment(seg, st, ex)
                    outs += o
                state = None
                if outs:
                    state = outs[0]
                    for o in outs[1:]:
                        state = state & o
        if state is not None:
            self.check(declared, state)
        return state

    def segment(self, seg, st, exits):
        """The states with which a case leaves its switch."""
        if any(x[0] == 'stmt' and x[1] and x[1][0] == 'break' for x in seg):
            i = next(i for i, x in enumerate(seg) if x[0] == 'stmt' and x[1] and x[1][0] == 'break')
            r = self.run(seg[:i], st, exits)
        else:
            r = self.run(seg, st, exits)
        return [] if r is None else [r]

    def loop_vars(self, head):
        d = flow.declared(head)
        return [str(n) for n in d[0]] if d else []

    def check(self, declared, state):
        for v in declared:
            if v not in self.touched or v in self.delegated or v not in self.a.msg:
                continue
            ty, base = self.a.msg[v]
            if ty is None or ty not in DESC or v not in self.fresh or v in self.handed:
                continue
            req = [f['name'] for f in DESC[ty]['fields'] if f['label'] == 'required']
            have = {f for x, f in state if x == v}
            self.missing |= {(ty, f) for x, f in self.all if x == v} - {(ty, f) for f in have}
            self.n += 1
            self.c.obligation(1, '%s writes the %d required fields of %s' % (self.a.f.qname, len(req), ty.replace(NS, '')))
            for r in req:
                if r not in have:
                    self.c.violation('required:%s:%s.%s' % (self.a.f.qname, ty.replace(NS, ''), r), self.a.f.where(),
                                     '%s may leave the required field %s of %s unset' % (
                                         self.a.f.qname, r, ty.replace(NS, '')))


def required_fields(c, a, P):
    if a.is_reader:
        return 0
    m = Must(c, a)
    params = [str(n) for n, ty in a.f.params if n is not None and str(n) in a.msg and message_type(ty) and '*' in ty]
    m.fresh |= set(params)
    m.run(a.body, frozenset(), [], params)
    for k in m.missing:
        P.always[k] = False
    return m.n


def owner(a):
    return a.f.cls


def selectors(c, P, An):
    """The members of other structures from which fields are written, and which are set from fields."""
    W, R = {}, {}
    for a in An:
        for kind, toks, g in flow.walk(a.body):
            if not a.is_reader:
                for i, t in enumerate(toks):
                    if t == 'WriteToMessage' and i >= 3 and toks[i - 1] in ('.', '->') and toks[i - 2].kind == 'id' and \
                            toks[i - 3] in ('.', '->') and toks[i + 1:i + 2] == ['(']:
                        sel = str(toks[i - 2])
                    elif t.startswith('set_') and i >= 1 and toks[i - 1] in ('->', '.') and toks[i + 1:i + 2] == ['(']:
                        k = match(toks, i + 1)
                        arg = toks[i + 2:k]
                        if len(arg) >= 3 and arg[-1].kind == 'id' and arg[-2] in ('.', '->'):
                            sel = str(arg[-1])
                        else:
                            continue
                    else:
                        continue
                    b = i
                    if t.startswith('set_'):
                        # The chain that ends here.
                        seg = toks[:i + 1]
                    k = match(toks, i + 1)
                    for j in range(0, k):
                        if toks[j].kind == 'id' and str(toks[j]) in a.msg:
                            ch = a.chain(toks, j)
                            if ch is not None and ch[5] and ch[5][-1][1] == 'w' and (j > i or ch[0] > i):
                                x = ch[5][-1][0][-1]
                                if x[0] not in (None, 'ext'):
                                    W.setdefault((owner(a), x), []).append((sel, a, t))
            else:
                if a.dead(g):
                    continue
                for i, t in enumerate(toks):
                    if t != '=' or i < 2 or toks[i - 1].kind != 'id' or toks[i - 2] not in ('.', '->'):
                        continue
                    e, depth = i + 1, 0
                    while e < len(toks) and not (toks[e].kind == 'op' and toks[e] in (',', ';', '}', ')')):
                        if toks[e].kind == 'op' and toks[e] in cxx.OPEN:
                            e = match(toks, e)
                        elif toks[e] == '<' and angle(toks, e):
                            e = angle(toks, e)
                        e += 1
                    for y in a.atoms(toks[i + 1:e]):
                        if y[0] == 'f' and y[-1][0] not in (None, 'ext'):
                            R.setdefault((owner(a), y[-1]), []).append((str(toks[i - 1]), a, t))
    source = {}
    for (o, f), x in W.items():
        if len({y[0] for y in x}) == 1:
            source.setdefault((o, x[0][0]), set()).add(f)
    n = 0
    for k, x in sorted(W.items(), key=str):
        w, r = {y[0] for y in x}, {y[0] for y in R.get(k, ())}
        if not r:
            continue
        n += 1
        c.obligation(1, '%s: %s is written from .%s and restored to .%s' % (k[0], short(k[1]), sorted(w), sorted(r)))
        if '--dump' in sys.argv:
            print('SEL', k[0], short(k[1]), sorted(w), sorted(r))
        if len(w) == 1 and len(r) == 1 and w != r and source.get((k[0], min(r)), {k[1]}) - {k[1]}:
            _, a, t = x[0]
            c.violation('selector:%s:%s' % (k[0], short(k[1])), a.f.where(t), 'the field %s is written from the member %s but '
                        'restored to the member %s, which is saved in another field' % (short(k[1]), min(w), min(r)))
    c.require('fields related to members of inner structures', n, 1)


def same(x, y):
    return x == y or x.split('[')[0] == y.split('[')[0] and ('[' in x) != ('[' in y)


def agreement(c, P, An):
    W, R, N = {}, {}, {}
    for a in An:
        if not a.is_reader:
            for path, atoms, g, t in a.writes:
                if path and path[-1][0] not in (None, 'ext'):
                    W.setdefault((owner(a), path[-1]), []).append(({m for _, m in atoms}, a, t))
        # Restored members.
        for m, atoms in a.sinks:
            for x in atoms:
                if x[0] == 'f' and x[-1][0] not in (None, 'ext'):
                    R.setdefault((owner(a), x[-1]), []).append(({m}, a))
        if a.f.cls and a.is_reader:
            for cls in [a.f.cls] + sorted(n for n in P.class_members if n.startswith(a.f.cls + '::')):
                for args, t in constructions(a, cls):
                    ats = [a.atoms(arg) for arg in args]
                    cm = P.constructor_map(cls, len(args), [i for i, x in enumerate(ats) if any(y[0] == 'f' for y in x)])
                    for i, x in enumerate(ats):
                        for y in x:
                            if y[0] == 'f' and y[-1][0] not in (None, 'ext'):
                                (R if cls == a.f.cls else N).setdefault((owner(a), y[-1]), []).append(
                                    (cm[i] if cm else {'?'}, a))
    n, related = 0, []
    for k in sorted(W, key=str):
        w = set().union(*[x[0] for x in W[k]])
        r = set().union(*[x[0] for x in R.get(k, ())])
        if k in N:
            # A nested structure, whose members have the last word.
            nested = set().union(*[x[0] for x in N[k]])
            if nested and '?' not in nested:
                all_nested = set()
                for q, ms in P.class_members.items():
                    if q.startswith(k[0] + '::'):
                        all_nested |= set(ms)
                if w & all_nested:
                    w, r = w & all_nested, nested
        if not w or not r or '?' in r:
            continue
        n += 1
        c.obligation(1, '%s: %s is written from %s and restored to %s' % (k[0], short(k[1]), sorted(w), sorted(r)))
        if '--dump' in sys.argv:
            print('AG', k[0], short(k[1]), sorted(w), sorted(r))
        related.append((k, w, r))
    source, target = {}, {}
    for k, w, r in related:
        if len(w) == 1:
            source.setdefault((k[0], min(w)), set()).add(k[1])
        if len(r) == 1:
            target.setdefault((k[0], min(r)), set()).add(k[1])
    for k, w, r in related:
        # The member that is restored is the one saved in another field.
        if len(w) == 1 and len(r) == 1 and not same(min(w), min(r)) and (
                source.get((k[0], min(r)), {k[1]}) - {k[1]} or target.get((k[0], min(w)), {k[1]}) - {k[1]}):
            _, a, t = W[k][0]
            c.violation('member:%s:%s' % (k[0], short(k[1])), a.f.where(t), 'the field %s is written from %s but restored to %s' % (
                short(k[1]), ', '.join(sorted(w)), ', '.join(sorted(r))))
    c.require('fields related to members on both sides', n, 1)


vlib.main(check, 'C09', 'other', RULE)
