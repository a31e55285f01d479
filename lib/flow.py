"""Statement structure and identifier-level dataflow over the token stream of a function body."""
import re
import cxx
from cxx import match, match_back, angle, split_args


def statements(toks):
    """A list of ('if', cond, then, else) | ('loop', head, body) | ('switch', head, body) | ('block', body) |
    ('stmt', toks)."""
    out, i, n = [], 0, len(toks)
    while i < n:
        s, i = statement(toks, i)
        if s is not None:
            out.append(s)
    return out


def statement(toks, i):
    n = len(toks)
    t = toks[i]
    if t == ';':
        return None, i + 1
    if t == '{':
        k = match(toks, i)
        return ('block', statements(toks[i + 1:k])), k + 1
    if t == 'if' or t in ('for', 'while', 'switch'):
        j = i + 1
        while toks[j] != '(':
            if toks[j] == '{':      # if consteval
                break
            j += 1
        if toks[j] == '(':
            k = match(toks, j)
            head = toks[j + 1:k]
            j = k + 1
        else:
            head = toks[i + 1:j]
        body, j = statement(toks, j)
        if t == 'if':
            els = None
            if j < n and toks[j] == 'else':
                els, j = statement(toks, j + 1)
                els = [els] if els else []
            return ('if', head, [body] if body else [], els), j
        return ('switch' if t == 'switch' else 'loop', head, [body] if body else []), j
    if t == 'do':
        body, j = statement(toks, i + 1)
        while j < n and toks[j] != ';':
            j += 1
        return ('loop', [], [body] if body else []), j + 1
    if t in ('case', 'default'):
        j = i
        while j < n and toks[j] != ':':
            if toks[j] in cxx.OPEN:
                j = match(toks, j)
            j += 1
        return ('label', toks[i:j]), j + 1
    if t == 'else':
        return statement(toks, i + 1)
    j = i
    while j < n and toks[j] != ';':
        if toks[j].kind == 'op' and toks[j] in cxx.OPEN:
            j = match(toks, j)
        j += 1
    return ('stmt', toks[i:j]), j + 1


def fatal(stmts):
    if len(stmts) == 1 and stmts[0][0] == 'block':
        return fatal(stmts[0][1])
    return bool(stmts) and stmts[-1][0] == 'stmt' and 'FATAL' in stmts[-1][1] and \
        stmts[-1][1][0] in ('LOG', 'DLOG')


def walk(stmts, guards=()):
    """Yields (kind, toks, guards) for each simple statement and each head."""
    for s in stmts:
        k = s[0]
        if k == 'stmt':
            yield 'stmt', s[1], guards
        elif k == 'label':
            yield 'label', s[1], guards
        elif k == 'block':
            yield from walk(s[1], guards)
        elif k == 'if':
            yield 'cond', s[1], guards
            # A condition whose failure is fatal does not make what it guards conditional.
            yield from walk(s[2], guards if s[3] and fatal(s[3]) else guards + (('if', s[1]),))
            if s[3]:
                yield from walk(s[3], guards + (('else', s[1]),))
        elif k in ('loop', 'switch'):
            yield k, s[1], guards
            yield from walk(s[2], guards + ((k, s[1]),))


def find_seq(toks, *seq):
    for i in range(len(toks) - len(seq) + 1):
        if all(toks[i + j] == s for j, s in enumerate(seq)):
            return i
    return -1


def declared(toks):
    """If the statement declares variables with an initializer: (names, initializer tokens, type tokens)."""
    # Structured bindings.
    for i, t in enumerate(toks[:8]):
        if t == '[' and i and toks[i - 1] in ('auto', '&', '&&', 'const') and 'auto' in toks[:i]:
            k = match(toks, i)
            names = [x for x in toks[i + 1:k] if x.kind == 'id']
            rest = toks[k + 1:]
            if rest and rest[0] in ('=', ':'):
                return names, rest[1:], toks[:i]
            return None
    # type name = init | type name ( init ) | type name { init } | type name : range
    i, n = 0, len(toks)
    ids = 0
    if not toks or toks[0].kind != 'id' or toks[0] in ('return', 'delete', 'throw', 'goto', 'case', 'new', 'co_return',
                                                       'break', 'continue', 'using'):
        return None
    while i < n:
        t = toks[i]
        if t == '<' and t.kind == 'op':
            k = angle(toks, i)
            if k is None:
                return None
            i = k + 1
            continue
        if t.kind == 'id' or t in ('::', '&', '*', '&&', '...'):
            i += 1
            continue
        break
    if i >= n:
        # A declaration without initializer.
        if n >= 2 and toks[-1].kind == 'id' and toks[-2] not in ('::', '.', '->'):
            return [toks[-1]], [], toks[:-1]
        return None
    t = toks[i]
    if i < 2 or toks[i - 1].kind != 'id' or toks[i - 2] in ('::', '.', '->') or \
            toks[i - 2].kind not in ('id', 'op') or (toks[i - 2].kind == 'op' and toks[i - 2] not in ('>', '&', '*', '&&')):
        return None
    if toks[i - 2].kind == 'id' and toks[i - 2] in ('return', 'new', 'operator', 'else'):
        return None
    if t in ('=', ':'):
        return [toks[i - 1]], toks[i + 1:], toks[:i - 1]
    if t in ('(', '{'):
        k = match(toks, i)
        if k == n - 1:
            return [toks[i - 1]], toks[i + 1:k], toks[:i - 1]
    return None


def alpha(stmts):
    """The same statements, with each local variable renamed according to its declaration."""
    counter = [0]

    def lam_params(toks, env):
        # The parameters of a lambda hide the variables.
        return env

    def rename(toks, env):
        out = []
        for i, t in enumerate(toks):
            if t.kind == 'id' and str(t) in env and not (i and toks[i - 1] in ('.', '->', '::')):
                out.append(cxx.Tok(env[str(t)], 'id', t.line, t.file))
            else:
                out.append(t)
        return out

    def declare(toks, env):
        d = declared(toks)
        if d is None:
            return env, toks
        new = dict(env)
        for n in d[0]:
            counter[0] += 1
            new[str(n)] = '%s@%d' % (n, counter[0])
        # The initializer sees the previous meaning of the names, which hardly matters.
        return new, toks

    def go(ss, env):
        out = []
        for s in ss:
            k = s[0]
            if k == 'stmt':
                env, t = declare(s[1], env)
                out.append(('stmt', rename(t, env)))
            elif k == 'label':
                out.append(s)
            elif k == 'block':
                out.append(('block', go(s[1], env)))
            elif k == 'if':
                e, h = env, s[1]
                if ';' in h:
                    e, _ = declare(h[:h.index(';')], env)
                else:
                    e, _ = declare(h, env)
                out.append(('if', rename(h, e), go(s[2], e), go(s[3], e) if s[3] else s[3]))
            else:
                h = s[1]
                e, _ = declare(h[:h.index(';')] if ';' in h else h, env)
                if ';' in h and e is env:
                    e, _ = declare(h, env)
                out.append((k, rename(h, e), go(s[2], e)))
        return out
    return go(stmts, {})
