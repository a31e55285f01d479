"""A light structural parser for the C++ of this repository: tokens, classes with their data members, functions with
their parameters, initializers and bodies.  Used where templates that are never instantiated, or the number of files,
make the compiler's tree unwieldy."""
import functools, glob, os, re, subprocess
from vbuild import REPO, Broken

TOK = re.compile(r'''
  (?P<ws>\s+)
| (?P<lc>//[^\n]*)
| (?P<bc>/\*.*?\*/)
| (?P<raw>(?:u8|u|U|L)?R"(?P<delim>[^()\\\s]{0,16})\(.*?\)(?P=delim)")
| (?P<str>(?:u8|u|U|L)?"(?:\\.|[^"\\\n])*"(?:_[A-Za-z⁽⁾\w]+|[⑴-⒇⒔]*)?)
| (?P<chr>(?:u8|u|U|L)?'(?:\\.|[^'\\\n])+')
| (?P<num>(?:\d|\.\d)(?:'?[\w.]|(?<=[eEpP])[+-])*)
| (?P<id>[^\W\d][\w²³⁰¹⁴-⁹⁺⁻⁽⁾⁰-₟Ⅰ-ↈʹʺᐞ̂]*)
| (?P<pp>\#(?:\\\n|[^\n])*)
| (?P<op><<=|>>=|<=>|->\*|\.\.\.|::|->|\+\+|--|<<|<=|>=|==|!=|&&|\|\||\+=|-=|\*=|/=|%=|&=|\|=|\^=|[{}()\[\]<>;:,.?~!%^&*\-+=|/@\\])
| (?P<other>.)
''', re.X | re.S)


class Tok(str):
    __slots__ = ('line', 'kind', 'file')

    def __new__(cls, s, kind, line, file):
        t = str.__new__(cls, s)
        t.kind, t.line, t.file = kind, line, file
        return t


def lex(text, file='', keep_pp=False):
    out, line, i = [], 1, 0
    skip = None     # The depth of the conditional whose alternative is being skipped.
    depth = 0
    ifs = []        # For the conditionals being processed, the directive and what precedes it.
    for m in TOK.finditer(text):
        k = m.lastgroup if m.lastgroup != 'delim' else 'raw'
        s = m.group(0)
        if k == 'pp' and not keep_pp:
            d = s[1:].lstrip()
            if d.startswith('if'):
                depth += 1
                ifs.append([d.startswith('ifndef'), len(out), False])
            elif d.startswith('include') and ifs:
                ifs[-1][2] = True
            elif d.startswith(('else', 'elif')) and skip is None:
                # Where a file includes another one instead of being processed, it is what follows that matters.
                if not (ifs and ifs[-1][0] and ifs[-1][2] and len(out) == ifs[-1][1] and d.startswith('else')):
                    skip = depth
            elif d.startswith('endif'):
                if ifs:
                    ifs.pop()
                if skip == depth:
                    skip = None
                depth -= 1
        if skip is not None and k != 'pp':
            pass
        elif k in ('ws', 'lc', 'bc') or k == 'pp' and not keep_pp:
            pass
        elif k == 'other' and out and out[-1].kind == 'id' and m.start() and not text[m.start() - 1].isspace():
            # A symbol that the pattern of identifiers does not know, inside an identifier.
            p = out.pop()
            out.append(Tok(p + s, 'id', p.line, file))
        elif k == 'id' and out and out[-1].kind == 'id' and not text[m.start() - 1].isspace() and \
                not text[m.start() - 1] in '"\'/':
            p = out.pop()
            out.append(Tok(p + s, 'id', p.line, file))
        else:
            if k == 'other':
                k = 'id'
            out.append(Tok(s, k, line, file))
        line += s.count('\n')
    return out


@functools.lru_cache(maxsize=None)
def tokens(path):
    full = os.path.join(REPO, path)
    if not os.path.exists(full):
        return []
    return lex(open(full, encoding='utf-8').read().lstrip('﻿'), path)


OPEN, CLOSE = {'(': ')', '[': ']', '{': '}'}, {')': '(', ']': '[', '}': '{'}


def match(toks, i):
    """The index of the bracket that closes the one at i."""
    d = 0
    for j in range(i, len(toks)):
        if toks[j].kind == 'op':
            if toks[j] in OPEN:
                d += 1
            elif toks[j] in CLOSE:
                d -= 1
                if d == 0:
                    return j
    raise Broken('unbalanced brackets at %s:%d' % (toks[i].file, toks[i].line))


def match_back(toks, i):
    d = 0
    for j in range(i, -1, -1):
        if toks[j].kind == 'op':
            if toks[j] in CLOSE:
                d += 1
            elif toks[j] in OPEN:
                d -= 1
                if d == 0:
                    return j
    return -1


def angle(toks, i):
    """The index of the > that closes the < at i, or None if it is not a template bracket."""
    d = 0
    j = i
    while j < len(toks):
        t = toks[j]
        if t.kind == 'op':
            if t == '<':
                d += 1
            elif t == '>':
                d -= 1
                if d == 0:
                    return j
            elif t in '([{' and len(t) == 1:
                j = match(toks, j)
            elif t in (';', '&&', '||', ')', ']', '}') :
                if t == '&&' or t == '||':
                    pass
                else:
                    return None
            elif t == '>>=':
                return None
        j += 1
    return None


def split_args(toks):
    """Splits a list of tokens on its top-level commas, template arguments included."""
    out, cur, i = [], [], 0
    while i < len(toks):
        t = toks[i]
        if t.kind == 'op' and t in OPEN:
            j = match(toks, i)
            cur += toks[i:j + 1]
            i = j + 1
            continue
        if t == '<' and t.kind == 'op' and cur and cur[-1].kind == 'id':
            j = angle(toks, i)
            if j is not None and (j + 1 == len(toks) or toks[j + 1] in ('(', '::', '{', ',', '>', '&', '*', ')', 'const',
                                                                       '...') or toks[j + 1].kind == 'id'):
                cur += toks[i:j + 1]
                i = j + 1
                continue
        if t == ',' and t.kind == 'op':
            out.append(cur)
            cur = []
        else:
            cur.append(t)
        i += 1
    if cur or out:
        out.append(cur)
    return out


class Function:
    def __init__(self, cls, name, params, quals, inits, body, tok, tparams):
        self.cls, self.name, self.params, self.quals, self.inits, self.body = cls, name, params, quals, inits, body
        self.file, self.line = tok.file, tok.line
        self.tparams = tparams

    @property
    def qname(self):
        return '%s::%s' % (self.cls, self.name) if self.cls else self.name

    def where(self, t=None):
        return '%s:%d' % (self.file, t.line if t is not None else self.line)


class Class:
    def __init__(self, name, qname, file, line, body, bases):
        self.name, self.qname, self.file, self.line, self.body, self.bases = name, qname, file, line, body, bases
        self.members = []    # (name, type tokens, full declaration tokens)


SKIP_BEFORE_PAREN = {'if', 'for', 'while', 'switch', 'return', 'catch', 'sizeof', 'decltype', 'alignas', 'noexcept',
                     'requires', 'static_assert', 'new', 'delete', 'throw', 'co_return', 'typeid', 'defined', 'typename'}


def base_name(toks):
    """The last plain identifier of a qualified, possibly templated name."""
    i = len(toks) - 1
    while i >= 0:
        if toks[i] == '>':
            d = 0
            while i >= 0:
                if toks[i] == '>':
                    d += 1
                elif toks[i] == '<':
                    d -= 1
                    if d == 0:
                        break
                i -= 1
            i -= 1
            continue
        if toks[i].kind == 'id':
            return toks[i]
        i -= 1
    return None


def param_name(p):
    """(name, type tokens) of a parameter declaration."""
    if '=' in p:
        p = p[:p.index('=')]
    if not p:
        return None, []
    # Array or function declarators are not used for parameters here, save for `T (&x)[n]`.
    ids = [i for i, t in enumerate(p) if t.kind == 'id' and t not in ('const', 'typename', 'auto', 'unsigned')]
    if p[-1] == ']':
        k = match_back(p, len(p) - 1)
        if k > 0 and p[k - 1] == ')':
            m = match_back(p, k - 1)
            inner = [t for t in p[m:k - 1] if t.kind == 'id']
            return (inner[-1] if inner else None), p[:m]
        return (p[k - 1] if k > 0 and p[k - 1].kind == 'id' else None), p[:k - 1]
    if ids and ids[-1] == len(p) - 1 and len(p) > 1 and p[-2] not in ('::',):
        return p[-1], p[:-1]
    return None, p


class Unit:
    """The classes and functions of a file."""

    def __init__(self, path):
        self.path = path
        self.toks = tokens(path)
        self.functions, self.classes = [], []
        self.scan(self.toks, '')

    def scan(self, toks, cls):
        i, n, start = 0, len(toks), 0
        while i < n:
            t = toks[i]
            if t.kind != 'op' and t not in ('class', 'struct', 'union', 'enum', 'namespace', 'extern', 'public', 'private',
                                            'protected', 'using'):
                i += 1
                continue
            if t == 'using':
                while i < n and toks[i] != ';':
                    i += 1
                start = i = i + 1
                continue
            if t in ('public', 'private', 'protected') and i + 1 < n and toks[i + 1] == ':':
                start = i = i + 2
                continue
            if t == 'namespace':
                j = i + 1
                while j < n and toks[j] not in ('{', ';'):
                    j += 1
                if j < n and toks[j] == '{':
                    k = match(toks, j)
                    self.scan(toks[j + 1:k], cls)
                    start = i = k + 1
                else:
                    start = i = j + 1
                continue
            if t == 'extern' and i + 2 < n and toks[i + 1].kind == 'str' and toks[i + 2] == '{':
                k = match(toks, i + 2)
                self.scan(toks[i + 3:k], cls)
                start = i = k + 1
                continue
            if t == 'enum':
                j = i
                while j < n and toks[j] not in ('{', ';'):
                    j += 1
                if j < n and toks[j] == '{':
                    j = match(toks, j)
                    while j < n and toks[j] != ';':
                        j += 1
                start = i = j + 1
                continue
            if t in ('class', 'struct', 'union'):
                # A class head, unless inside template<...>.
                j = i + 1
                depth_ok = True
                a = i - 1
                if a >= 0 and toks[a] in ('<', ','):
                    i += 1
                    continue
                while j < n and toks[j] not in ('{', ';', '(', ')', '='):
                    if toks[j] == '<':
                        k = angle(toks, j)
                        if k is not None:
                            j = k
                    elif toks[j] in ('alignas', 'CAPABILITY') or toks[j].startswith('ABSL_'):
                        if toks[j + 1:j + 2] == ['(']:
                            j = match(toks, j + 1)
                    j += 1
                if j < n and toks[j] == '{':
                    head = toks[i + 1:j]
                    bases = []
                    if ':' in head:
                        c = head.index(':')
                        bases, head = head[c + 1:], head[:c]
                    head = [h for h in head if h not in ('final', 'alignas') and not h.startswith('ABSL_') and not h.startswith('PRINCIPIA_')]
                    # Drop the template arguments of a specialization.
                    name = base_name(head)
                    k = match(toks, j)
                    if name is not None:
                        q = (cls + '::' if cls else '') + name
                        c = Class(str(name), q, self.path, t.line, toks[j + 1:k], bases)
                        c.spec = [str(x) for x in head]
                        self.classes.append(c)
                        self.members(c)
                        self.scan(toks[j + 1:k], q)
                    # A declarator may follow.
                    m = k + 1
                    while m < n and toks[m] != ';':
                        m += 1
                    start = i = m + 1
                    continue
                i = j
                if i < n and toks[i] == ';':
                    start = i = i + 1
                continue
            if t == '(':
                k = match(toks, i)
                f = self.function(toks, start, i, k, cls)
                if f is not None:
                    start = i = f
                    continue
                i = k + 1
                continue
            if t == '{' or t == '[':
                i = match(toks, i) + 1
                if t == '{' and i < n and toks[i] != ';' and toks[i] not in (',', ')'):
                    start = i
                continue
            if t == ';':
                start = i = i + 1
                continue
            i += 1

    def function(self, toks, start, i, k, cls):
        """Recognizes a function definition whose parameters are toks[i..k]; returns the index after it, or None."""
        n = len(toks)
        if i == 0 or i <= start:
            return None
        p = toks[i - 1]
        name = None
        if p.kind == 'id' and p not in SKIP_BEFORE_PAREN:
            name = str(p)
            q = i - 2
            if q >= start and toks[q] == '~':
                name = '~' + name
                q -= 1
        elif 'operator' in toks[max(start, i - 4):i]:
            o = max(x for x in range(max(start, i - 4), i) if toks[x] == 'operator')
            name = 'operator' + ''.join(toks[o + 1:i])
            q = o - 1
            if toks[o + 1:i] == [] and toks[k + 1:k + 2] == ['(']:
                i, k = k + 1, match(toks, k + 1)
                name = 'operator()'
        elif p == '>' :
            return None
        if name is None:
            return None
        for o in range(max(start, i - 6), i):
            if toks[o] == 'operator' and not name.startswith('operator'):
                name = 'operator ' + ' '.join(toks[o + 1:i])
                q = o - 1
        # The qualifying class.
        owner = cls
        parts = []
        while q > start and toks[q] == '::':
            q -= 1
            if toks[q] == '>':
                d = 0
                while q >= start:
                    if toks[q] == '>':
                        d += 1
                    elif toks[q] == '<':
                        d -= 1
                        if d == 0:
                            break
                    q -= 1
                q -= 1
            if q >= start and toks[q].kind == 'id':
                parts.insert(0, str(toks[q]))
                q -= 1
        if parts:
            owner = '::'.join(parts)
        # What follows the parameters.
        j = k + 1
        inits, quals = [], []
        while j < n:
            t = toks[j]
            if t == '{':
                break
            if t in (';', ',', ')', '}') or t == '=':
                return None
            if t == ':' :
                j += 1
                while j < n:
                    a = j
                    while j < n and toks[j] not in ('(', '{'):
                        if toks[j] == '<':
                            x = angle(toks, j)
                            if x is not None:
                                j = x
                        j += 1
                    if j >= n:
                        return None
                    b = match(toks, j)
                    inits.append((toks[a:j], toks[j + 1:b]))
                    j = b + 1
                    if j < n and toks[j] == '...':
                        j += 1
                    if j < n and toks[j] == ',':
                        j += 1
                        continue
                    break
                break
            if t in ('const', 'noexcept', 'override', 'final', '&', '&&', '->', '::', '*', '...', 'requires', 'mutable',
                     'volatile', '<', '>', '!', '||', '==', '!=') or t.kind in ('id', 'num'):
                if t == '<':
                    x = angle(toks, j)
                    if x is not None:
                        quals += toks[j:x + 1]
                        j = x + 1
                        continue
                quals.append(t)
                j += 1
                continue
            if t == '(' or t == '[':
                x = match(toks, j)
                quals += toks[j:x + 1]
                j = x + 1
                continue
            return None
        if j >= n or toks[j] != '{':
            return None
        e = match(toks, j)
        head = toks[start:max(start, q + 1)]
        params = [param_name(a) for a in split_args(toks[i + 1:k])]
        f = Function(owner, name, params, quals, inits, toks[j + 1:e], p, head)
        f.head = head
        self.functions.append(f)
        return e + 1

    def members(self, c):
        """The data members declared in the body of a class."""
        toks, i, n, start = c.body, 0, len(c.body), 0
        while i < n:
            t = toks[i]
            if t in ('public', 'private', 'protected') and i + 1 < n and toks[i + 1] == ':':
                start = i = i + 2
                continue
            if t == 'template' and i + 1 < n and toks[i + 1] == '<':
                x = angle(toks, i + 1)
                i = (x if x is not None else i + 1) + 1
                continue
            if t in ('using', 'friend', 'typedef', 'static_assert', 'enum'):
                while i < n and toks[i] != ';':
                    if toks[i] in OPEN and toks[i].kind == 'op':
                        i = match(toks, i)
                        if t == 'friend' and toks[i] == '}':
                            break
                    i += 1
                start = i = i + 1
                continue
            if t in ('class', 'struct', 'union'):
                j = i
                while j < n and toks[j] not in ('{', ';'):
                    j += 1
                if j < n and toks[j] == '{':
                    if j == i + 1:
                        inner = Class('', c.qname, c.file, t.line, toks[j + 1:match(toks, j)], [])
                        self.members(inner)
                        if toks[match(toks, j) + 1:match(toks, j) + 2] == [';']:
                            c.members += inner.members
                    j = match(toks, j) + 1
                    # A declarator of an anonymous type.
                    if j < n and toks[j].kind == 'id':
                        c.members.append((str(toks[j]), toks[i:j], toks[i:j + 1]))
                    while j < n and toks[j] != ';':
                        j += 1
                start = i = j + 1
                continue
            if t.kind == 'op' and t == '(':
                prev = toks[i - 1] if i else ''
                k = match(toks, i)
                if prev.startswith('ABSL_') or prev == 'alignas' or prev == 'decltype':
                    i = k + 1
                    continue
                # A function: skip to its end.
                j = k + 1
                if self.is_fn_type(toks, start, i):
                    i = k + 1
                    continue
                while j < n and toks[j] not in (';', '{'):
                    if toks[j] == '(':
                        j = match(toks, j)
                    elif toks[j] == ':' :
                        # Constructor initializers.
                        j += 1
                        while j < n:
                            while j < n and toks[j] not in ('(', '{'):
                                j += 1
                            j = match(toks, j) + 1
                            if j < n and toks[j] == ',':
                                continue
                            break
                        continue
                    j += 1
                if j < n and toks[j] == '{':
                    j = match(toks, j)
                start = i = j + 1
                continue
            if t == '<':
                x = angle(toks, i)
                if x is not None:
                    i = x + 1
                    continue
            if t == '{':
                # A default member initializer.
                i = match(toks, i) + 1
                continue
            if t == ';':
                d = toks[start:i]
                self.member_of(c, d)
                start = i = i + 1
                continue
            i += 1

    def is_fn_type(self, toks, start, i):
        return False

    def member_of(self, c, d):
        full = d
        if not d or d[0] in ('using', 'friend', 'template'):
            return
        cut = len(d)
        for x, t in enumerate(d):
            if t == '=' or t == '{' or t.startswith('ABSL_'):
                cut = x
                break
        d = d[:cut]
        static = 'static' in d
        if d and d[-1] == ']':
            d = d[:match_back(d, len(d) - 1)]
        if len(d) >= 2 and d[-1].kind == 'id' and not static:
            c.members.append((str(d[-1]), d[:-1], full))


@functools.lru_cache(maxsize=None)
def unit(path):
    return Unit(path)


@functools.lru_cache(maxsize=None)
def files(*dirs):
    out = []
    for d in dirs or ('base', 'geometry', 'numerics', 'physics', 'integrators', 'ksp_plugin', 'quantities', 'journal',
                      'astronomy', 'functions', 'graphics', 'tools', 'nanobenchmarks', 'mathematica', 'testing_utilities'):
        for pat in ('*.hpp', '*.cpp'):
            for f in sorted(glob.glob(os.path.join(REPO, d, pat))):
                if not re.search(r'_test\.cpp$', f):
                    out.append(os.path.relpath(f, REPO))
    return tuple(out)


def call_args(toks, i):
    """The arguments of the call whose ( is at i, as lists of tokens, and the index of its )."""
    k = match(toks, i)
    return split_args(toks[i + 1:k]), k
