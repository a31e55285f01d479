"""Comparison of the current proto schema with the confirmed reference table."""
import json, os
import protodesc
from vbuild import VERIF, Broken

# A reader that changes a field from the first type to one of the second ones
# still decodes every value that was written with the first type.
WIDEN = {'int32': {'int64'}, 'uint32': {'uint64', 'int64'}, 'bool': {'int32', 'int64', 'uint32', 'uint64'},
         'string': {'bytes'}, 'enum': {'int32', 'int64'}, 'fixed32': set(), 'float': set()}


def schema():
    d = protodesc.load()
    msgs = {m: {str(f['number']): f for f in v['fields']} for m, v in d['messages'].items()}
    exts = {}
    for e in d['extensions']:
        exts.setdefault(e['extendee'], {})[str(e['number'])] = e
    return d, msgs, exts


def slim(f, enums, scope=False):
    r = {k: f[k] for k in ('name', 'label', 'type', 'type_name', 'oneof')}
    r['default'] = repr(norm_default(f, enums))
    if scope:
        r['scope'] = f['scope']
    return r


def snapshot(keep):
    d, msgs, exts = schema()
    return dict(
        messages={m: {n: slim(f, d['enums']) for n, f in fs.items()} for m, fs in msgs.items() if keep(m)},
        extensions={m: {n: slim(e, d['enums'], True) for n, e in es.items()} for m, es in exts.items() if keep(m)},
        enums={e: {str(num): nm for nm, num in vs} for e, vs in d['enums'].items() if keep(e)},
        syntax={f: s for f, s in d['syntax'].items()})


def text_closure(ref, roots):
    """Messages and enums that appear in text-format files, hence whose names
    matter as much as their numbers."""
    seen, todo = set(), list(roots)
    while todo:
        m = todo.pop()
        if m in seen:
            continue
        seen.add(m)
        for f in ref['messages'].get(m, {}).values():
            if f['type_name']:
                todo.append(f['type_name'])
    return seen


def default_of(f):
    if f['default'] is not None:
        d = f['default']
        if f['type'] in ('double', 'float'):
            try:
                return float(d)
            except ValueError:
                return d
        return d
    return {'bool': 'false', 'string': '', 'bytes': ''}.get(f['type'], 0)


def norm_default(f, enums):
    d = default_of(f)
    if f['type'] == 'enum':
        vals = enums.get(f['type_name'], [])
        if d == 0:
            return vals[0][1] if vals else 0
        return dict(vals).get(d, d)
    if f['type'] in ('double', 'float'):
        return float(d) if d != '' else 0.0
    if f['type'] in ('string', 'bytes'):
        return str(d)
    if f['type'] == 'bool':
        return d in ('true', 1)
    try:
        return int(d)
    except (TypeError, ValueError):
        return d


class Comparison:
    def __init__(self, check, ref, d, msgs, exts, text=()):
        self.c, self.ref, self.d, self.msgs, self.exts = check, ref, d, msgs, exts
        self.text = set(text)
        self.done = set()
        self.fields = 0

    def compare_field(self, key, where, old, new, ref_enums):
        c = self.c
        self.fields += 1
        c.obligation(1, 'field %s: %s %s' % (key, old['label'], old['type_name'] or old['type']))
        if new['type'] != old['type'] and new['type'] not in WIDEN.get(old['type'], ()):
            c.violation(key, where, 'type changed from %s to %s: bytes written as the former are '
                        'misread' % (old['type'], new['type']))
            return
        if old['label'] == 'repeated' and new['label'] != 'repeated':
            c.violation(key, where, 'was repeated, is now %s: all but the last element are lost'
                        % new['label'])
        if old['label'] != 'repeated' and new['label'] == 'repeated' and new['type'] == 'group':
            c.violation(key, where, 'label changed')
        if old['label'] == 'optional' and new['label'] == 'required':
            c.violation(key, where, 'was optional, is now required: data without it no longer parse')
        if old['label'] == 'required' and new['label'] == 'repeated':
            pass
        if old['label'] == 'optional' and new['label'] == 'optional':
            o = old['default']
            n = repr(norm_default(new, self.d['enums']))
            if o != n:
                c.violation(key, where, 'default changed from %r to %r: data which omit the field '
                            'acquire a different meaning' % (o, n))
        if old['oneof'] != new['oneof'] and new['oneof'] is not None:
            c.violation(key, where, 'moved into oneof %s: setting it now clears other fields'
                        % new['oneof'])
        if old['type'] == 'message' and new['type'] == 'message':
            self.compare_message(old['type_name'], new['type_name'])
        if old['type'] == 'enum' and new['type'] == 'enum':
            self.compare_enum(old['type_name'], new['type_name'])

    def compare_enum(self, old, new):
        if (old, new) in self.done:
            return
        self.done.add((old, new))
        ref = self.ref['enums'].get(old)
        if ref is None:
            return
        cur = self.d['enums'].get(new)
        if cur is None:
            self.c.violation(old, old, 'enum removed')
            return
        byname = dict(cur)
        bynum = {}
        for nm, num in cur:
            bynum.setdefault(num, []).append(nm)
        for num, nm in ref.items():
            key = '%s.%s' % (old, nm)
            self.c.obligation(1)
            if nm in byname and byname[nm] != int(num):
                self.c.violation(key, new, 'enumerator %s renumbered from %s to %d' % (nm, num, byname[nm]))
            elif nm not in byname and int(num) not in bynum:
                self.c.violation(key, new, 'enumerator %s = %s removed: data holding it are no '
                                 'longer understood' % (nm, num))
            elif nm not in byname and old in self.text:
                self.c.violation(key, new, 'enumerator %s renamed but it appears in text files' % nm)

    def compare_message(self, old, new):
        if (old, new) in self.done:
            return
        self.done.add((old, new))
        ref = self.ref['messages'].get(old)
        if ref is None:
            return
        cur = self.msgs.get(new)
        if cur is None:
            self.c.violation(old, old, 'message removed')
            return
        self._fields(old, new, ref, cur)
        rext = self.ref['extensions'].get(old, {})
        if rext:
            self._fields(old, new, rext, self.exts.get(new, {}), ext=True)

    def _fields(self, old, new, ref, cur, ext=False):
        c = self.c
        names = {((f.get('scope', '') + '.') if ext else '') + f['name']: n for n, f in cur.items()}
        where = '%s (%s)' % (new, self.d['messages'][new]['file'] if new in self.d['messages'] else '?')
        for n, f in ref.items():
            full = ((f.get('scope', '') + '.') if ext else '') + f['name']
            key = '%s.%s=%s' % (old, full if ext else f['name'], n)
            if full in names and names[full] != n:
                c.obligation(1)
                c.violation(key, where, '%s %s was number %s, is now number %s: data written under '
                            'the former are lost or misread' % ('extension' if ext else 'field', full, n, names[full]))
                continue
            if n not in cur:
                c.obligation(1)
                c.violation(key, where, 'number %s (%s) no longer declared: data written under it '
                            'are silently dropped' % (n, full))
                continue
            if full not in names and (old in self.text):
                c.violation(key, where, 'field %s renamed but it appears in text-format files' % full)
            # A name that used to be bound to another number.
            cn = ((cur[n].get('scope', '') + '.') if ext else '') + cur[n]['name']
            for n2, f2 in ref.items():
                full2 = ((f2.get('scope', '') + '.') if ext else '') + f2['name']
                if n2 != n and full2 == cn:
                    c.violation(key, where, 'number %s is now bound to %s, which was number %s' % (n, cn, n2))
            self.compare_field(key, where, f, cur[n], self.ref['enums'])
        for n, f in cur.items():
            if n not in ref and f['label'] == 'required':
                c.violation('%s.%s=%s' % (old, f['name'], n), where,
                            'new required field %s: existing data no longer parse' % f['name'])
            if n not in ref and f['oneof'] is not None and any(
                    r['oneof'] == f['oneof'] for r in ref.values()):
                pass


def table(name):
    p = os.path.join(VERIF, 'tables', name)
    if not os.path.exists(p):
        raise Broken('missing reference table ' + p)
    return json.load(open(p))
