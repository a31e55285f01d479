"""Access to clang-20's resolved AST (JSON) and compile-time constants."""
import concurrent.futures, json, os, re, struct, subprocess, sys, tempfile
import vbuild
from vbuild import Broken, BUILD, CLANG, REPO, run, sha, source_hash


def tu_path(source):
    """`source` is a path relative to /repo, or C++ text (a probe)."""
    if '\n' in source:
        os.makedirs(os.path.join(BUILD, 'probes'), exist_ok=True)
        p = os.path.join(BUILD, 'probes', sha(source) + '.cpp')
        if not os.path.exists(p):
            with open(p + '.%d' % os.getpid(), 'w') as f:
                f.write(source)
            os.rename(p + '.%d' % os.getpid(), p)
        return p
    return os.path.join(REPO, source)


def flags(interface=False):
    return vbuild.full_flags() if interface else vbuild.base_flags(vbuild.proto_gen())


def diagnostics(r):
    return '\n'.join(l for l in r.stderr.decode('utf-8', 'replace').splitlines()
                     if 'error:' in l)[:4000]


def parse_dump(text):
    dec = json.JSONDecoder()
    i, n, out = 0, len(text), []
    while i < n:
        j = text.find('{', i)
        if j < 0:
            break
        # Objects are separated by "Dumping xyz:" lines.
        o, i = dec.raw_decode(text, j)
        out.append(o)
    return out


def dump(source, filt, interface=False, extra=()):
    """The declarations whose qualified name contains `filt`."""
    path = tu_path(source)
    key = sha('ast', source_hash(), path, filt, str(interface), *extra)
    cache = os.path.join(BUILD, 'ast', key + '.json')
    if not os.path.exists(cache):
        os.makedirs(os.path.dirname(cache), exist_ok=True)
        tmp = cache + '.%d' % os.getpid()
        with open(tmp, 'wb') as f:
            r = subprocess.run([CLANG] + flags(interface) + list(extra) +
                               ['-w', '-fsyntax-only', '-Xclang', '-ast-dump=json',
                                '-Xclang', '-ast-dump-filter=' + filt, path],
                               stdout=f, stderr=subprocess.PIPE, cwd=REPO)
        if r.returncode:
            os.unlink(tmp)
            raise Broken('clang cannot parse %s:\n%s' % (path, diagnostics(r)))
        os.rename(tmp, cache)
    with open(cache, encoding='utf-8') as f:
        objs = parse_dump(f.read())
    for o in objs:
        fill_locations(o)
    return objs


def dump_many(jobs):
    """jobs: list of (source, filt, interface).  Parses in parallel."""
    def warm(j):
        path = tu_path(j[0])
        dump_only(*j)
    with concurrent.futures.ThreadPoolExecutor(vbuild.JOBS) as ex:
        list(ex.map(lambda j: dump_only(*j), jobs))


def dump_only(source, filt, interface=False):
    path = tu_path(source)
    key = sha('ast', source_hash(), path, filt, str(interface))
    cache = os.path.join(BUILD, 'ast', key + '.json')
    if os.path.exists(cache):
        return
    os.makedirs(os.path.dirname(cache), exist_ok=True)
    tmp = cache + '.%d.%s' % (os.getpid(), sha(path, filt))
    with open(tmp, 'wb') as f:
        r = subprocess.run([CLANG] + flags(interface) +
                           ['-w', '-fsyntax-only', '-Xclang', '-ast-dump=json',
                            '-Xclang', '-ast-dump-filter=' + filt, path],
                           stdout=f, stderr=subprocess.PIPE, cwd=REPO)
    if r.returncode:
        os.unlink(tmp)
        raise Broken('clang cannot parse %s:\n%s' % (path, diagnostics(r)))
    os.rename(tmp, cache)


def fill_locations(root):
    """clang omits `file`/`line` when unchanged from the previous location
    printed; make them explicit (as `_file`, `_line`) in document order."""
    state = {'file': None, 'line': None}

    def loc(l):
        if not isinstance(l, dict):
            return
        for sub in ('spellingLoc', 'expansionLoc'):
            if sub in l:
                loc(l[sub])
        if 'spellingLoc' in l or 'expansionLoc' in l:
            e = l.get('expansionLoc', {})
            l['_file'], l['_line'] = e.get('_file'), e.get('_line')
            return
        if 'offset' in l or 'file' in l or 'line' in l:
            if 'file' in l:
                state['file'] = l['file']
            if 'line' in l:
                state['line'] = l['line']
            l['_file'], l['_line'] = state['file'], state['line']
    stack = [root]
    # Document order: loc, range.begin, range.end, then the children.
    while stack:
        n = stack.pop()
        if not isinstance(n, dict):
            continue
        if 'loc' in n:
            loc(n['loc'])
        r = n.get('range')
        if r:
            loc(r.get('begin')); loc(r.get('end'))
        inner = n.get('inner')
        if inner:
            stack.extend(reversed(inner))


def where(n):
    l = (n.get('range') or {}).get('begin') or {}
    if '_line' not in l:
        l = n.get('loc') or {}
    f = l.get('_file') or '?'
    if f.startswith(REPO + '/'):
        f = f[len(REPO) + 1:]
    return '%s:%s' % (f, l.get('_line', '?'))


def walk(n):
    stack = [n]
    while stack:
        x = stack.pop()
        if not isinstance(x, dict):
            continue
        yield x
        inner = x.get('inner')
        if inner:
            stack.extend(reversed(inner))


def kids(n):
    return [x for x in n.get('inner', []) if isinstance(x, dict) and x]


def constants(includes, exprs, interface=False, prelude='', extra=()):
    """exprs: {symbol: (C++ type, constant expression)}.  Returns the IR
    initializer of each as a list of numbers: the compiler evaluates them, the
    program is never run."""
    src = ''.join('#include "%s"\n' % i for i in includes) + prelude + '\n'
    for sym, (ty, e) in exprs.items():
        src += 'extern "C" { __attribute__((used)) constinit extern const %s %s = %s; }\n' % (ty, sym, e)
    path = tu_path(src)
    out = os.path.join(BUILD, 'probes', sha('ir', source_hash(), src, *extra) + '.ll')
    if not os.path.exists(out):
        tmp = out + '.%d' % os.getpid()
        r = run([CLANG] + flags(interface) + list(extra) + [
            '-w', '-O0', '-fconstexpr-steps=100000000', '-S', '-emit-llvm', path, '-o', tmp], cwd=REPO)
        if r.returncode:
            raise Broken('cannot evaluate the constants of the probe:\n' +
                         r.stderr.decode('utf-8', 'replace')[:3000])
        os.rename(tmp, out)
    vals = {}
    rx = re.compile(r'^@("?)([\w.$]+)\1 = .*?(?:constant|global) (.*)$')
    want = set(exprs)
    with open(out, encoding='utf-8', errors='replace') as f:
        for line in f:
            if not line.startswith('@'):
                continue
            m = rx.match(line)
            if m and m.group(2) in want:
                vals[m.group(2)] = line
    res = {}
    for sym in exprs:
        if sym not in vals:
            raise Broken('constant %s not emitted' % sym)
        res[sym] = parse_init(vals[sym])
    return res


def parse_init(line):
    line = re.sub(r', align \d+.*$', '', line)
    line = line.split('=', 1)[1]
    out = []
    if 'zeroinitializer' in line:
        # Only whole zero aggregates: expand from the type.
        toks = re.findall(r'\[(\d+) x (double|float|i\d+)\] zeroinitializer', line)
        if toks and not re.search(r'(double|i\d+) (-?[\d.]+|0x)', line.split('[', 1)[1].replace('zeroinitializer', '')):
            n = sum(int(t[0]) for t in toks)
            return [0.0 if toks[0][1] == 'double' else 0] * n
    for m in re.finditer(r'\b(double|float|i\d+) (0x[0-9A-Fa-f]+|-?[\d.]+e[+-]\d+|-?\d+(?:\.\d+)?|true|false)|\[(\d+) x (double|i\d+)\] zeroinitializer', line):
        if m.group(3):
            out += [0.0 if m.group(4) == 'double' else 0] * int(m.group(3))
            continue
        ty, v = m.group(1), m.group(2)
        if ty in ('double', 'float'):
            if v.startswith('0x'):
                out.append(struct.unpack('>d', bytes.fromhex(v[2:].zfill(16)))[0])
            else:
                out.append(float(v))
        elif v in ('true', 'false'):
            out.append(int(v == 'true'))
        else:
            out.append(int(v))
    return out
