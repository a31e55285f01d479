"""A decoder for FileDescriptorSet, written against descriptor.proto."""
import os
from vbuild import proto_gen, read


def varint(b, i):
    r = s = 0
    while True:
        c = b[i]; i += 1
        r |= (c & 127) << s
        if c < 128:
            return r, i
        s += 7


def fields(b):
    i = 0
    while i < len(b):
        k, i = varint(b, i)
        n, w = k >> 3, k & 7
        if w == 0:
            v, i = varint(b, i)
        elif w == 1:
            v = b[i:i+8]; i += 8
        elif w == 2:
            l, i = varint(b, i)
            v = b[i:i+l]; i += l
        elif w == 5:
            v = b[i:i+4]; i += 4
        else:
            raise ValueError(w)
        yield n, v


def sint(v):
    return v - (1 << 64) if v >> 63 else v


TYPES = {1: 'double', 2: 'float', 3: 'int64', 4: 'uint64', 5: 'int32',
         6: 'fixed64', 7: 'fixed32', 8: 'bool', 9: 'string', 10: 'group',
         11: 'message', 12: 'bytes', 13: 'uint32', 14: 'enum', 15: 'sfixed32',
         16: 'sfixed64', 17: 'sint32', 18: 'sint64'}
LABELS = {1: 'optional', 2: 'required', 3: 'repeated'}


def parse_field(b, oneofs):
    f = dict(name='', number=0, label='', type='', type_name='', default=None,
             extendee='', oneof=None, options={})
    for n, v in fields(b):
        if n == 1: f['name'] = v.decode()
        elif n == 2: f['extendee'] = v.decode().lstrip('.')
        elif n == 3: f['number'] = v
        elif n == 4: f['label'] = LABELS[v]
        elif n == 5: f['type'] = TYPES[v]
        elif n == 6: f['type_name'] = v.decode().lstrip('.')
        elif n == 7: f['default'] = v.decode()
        elif n == 8:
            for on, ov in fields(v):
                f['options'][str(on)] = (ov.decode('utf-8', 'replace')
                                         if isinstance(ov, bytes) else ov)
        elif n == 9: f['oneof'] = v
    if f['oneof'] is not None:
        f['oneof'] = oneofs[f['oneof']]
    return f


def parse_enum(b, scope, out):
    name, vals = '', []
    for n, v in fields(b):
        if n == 1: name = v.decode()
        elif n == 2:
            en, num = '', 0
            for k, w in fields(v):
                if k == 1: en = w.decode()
                elif k == 2: num = sint(w)
            vals.append((en, num))
    out['enums'][scope + name] = vals


def parse_message(b, scope, out, file):
    name, fs, nested, enums, exts, oneofs, ranges, reserved, opts = '', [], [], [], [], [], [], [], {}
    fl = list(fields(b))
    for n, v in fl:
        if n == 1: name = v.decode()
        elif n == 8:
            oneofs.append(next(w.decode() for k, w in fields(v) if k == 1))
    for n, v in fl:
        if n == 2: fs.append(parse_field(v, oneofs))
        elif n == 3: parse_message(v, scope + name + '.', out, file)
        elif n == 4: parse_enum(v, scope + name + '.', out)
        elif n == 5:
            d = dict(fields(v)); ranges.append((d.get(1, 0), d.get(2, 0)))
        elif n == 6:
            e = parse_field(v, []); e['scope'] = scope + name
            out['extensions'].append(e)
        elif n == 7:
            for on, ov in fields(v):
                opts[str(on)] = (ov.decode('utf-8', 'replace')
                                 if isinstance(ov, bytes) else ov)
        elif n == 9:
            d = dict(fields(v)); reserved.append((d.get(1, 0), d.get(2, 0)))
    out['messages'][scope + name] = dict(fields=fs, ranges=ranges,
                                         reserved=reserved, options=opts,
                                         file=file)


def load(path=None):
    path = path or os.path.join(proto_gen(), 'all.desc')
    out = dict(messages={}, enums={}, extensions=[], syntax={})
    for n, v in fields(read(path)):
        if n != 1:
            continue
        pkg = name = ''; syntax = 'proto2'
        fl = list(fields(v))
        for k, w in fl:
            if k == 1: name = w.decode()
            elif k == 2: pkg = w.decode()
            elif k == 12: syntax = w.decode()
        if name.startswith('google/'):
            continue
        out['syntax'][name] = syntax
        scope = pkg + '.' if pkg else ''
        for k, w in fl:
            if k == 4: parse_message(w, scope, out, name)
            elif k == 5: parse_enum(w, scope, out)
            elif k == 7:
                e = parse_field(w, []); e['scope'] = pkg
                out['extensions'].append(e)
    return out
