"""Compile-time witnesses: expressions that the compiler must be able to evaluate, and their values."""
import concurrent.futures, os, re
import astlib, vbuild
from astlib import tu_path, flags, parse_init
from vbuild import BUILD, Broken, CLANG, REPO, run, sha, source_hash

RX = re.compile(r'^@("?)([\w.$]+)\1 = .*?(?:constant|global) (.*)$')
NOT_CONSTANT = re.compile(r'does not have a constant initializer|must be initialized by a constant expression|'
                          r'not an integral constant expression|is not a constant expression|static assertion')


def values(includes, exprs, prelude='', extra=(), interface=False):
    """exprs: {symbol: (C++ type, expression)}.  Returns ({symbol: numbers}, {symbol: reason}): the second dictionary
    has the expressions that are not constant, i.e. whose evaluation hits a failed check or undefined behaviour."""
    bad, todo = {}, dict(exprs)
    for _ in range(40):
        head = ''.join('#include "%s"\n' % i for i in includes) + prelude + '\n'
        base = head.count('\n')
        syms = list(todo)
        src = head + ''.join('extern "C" { __attribute__((used)) constinit extern const %s %s = %s; }\n' %
                             (todo[s][0], s, todo[s][1].replace('\n', ' ')) for s in syms)
        path = tu_path(src)
        out = os.path.join(BUILD, 'probes', sha('ir', source_hash(), src, *extra) + '.ll')
        if not os.path.exists(out):
            tmp = out + '.%d' % os.getpid()
            r = run([CLANG] + flags(interface) + list(extra) +
                    ['-w', '-O0', '-ferror-limit=0', '-fconstexpr-steps=2000000000', '-fconstexpr-backtrace-limit=40',
                     '-fno-caret-diagnostics', '-S', '-emit-llvm', path, '-o', tmp], cwd=REPO)
            if r.returncode:
                text = r.stderr.decode('utf-8', 'replace').splitlines()
                errors = [(i, l) for i, l in enumerate(text) if re.search(r': (fatal )?error: ', l)]
                found = False
                for i, l in errors:
                    m = re.match(re.escape(path) + r':(\d+):\d+: error: ', l)
                    k = int(m.group(1)) - base - 1 if m else -1
                    if not m or not 0 <= k < len(syms) or not NOT_CONSTANT.search(l):
                        raise Broken('cannot compile the witnesses:\n' + l + '\n' + '\n'.join(text[i + 1:i + 3]))
                    note = []
                    for x in text[i + 1:]:
                        if ': error: ' in x:
                            break
                        y = re.match(re.escape(REPO) + r'/([^:]+:\d+):\d+: note: (.*)', x)
                        z = re.match(r'\S+:\d+:\d+: note: (.*)', x)
                        if y:
                            note.append('%s: %s' % (y.group(1), y.group(2)))
                        elif z and not note:
                            note.append(z.group(1))
                    note = [x for x in note if 'expanded from macro' not in x]
                    bad[syms[k]] = '; '.join(note[:3]) or l.split('error: ', 1)[1]
                    todo.pop(syms[k], None)
                    found = True
                if not found:
                    raise Broken('cannot compile the witnesses:\n' + '\n'.join(text[:20]))
                continue
            os.rename(tmp, out)
        res = {}
        want = set(syms)
        with open(out, encoding='utf-8', errors='replace') as f:
            for line in f:
                if line.startswith('@'):
                    m = RX.match(line)
                    if m and m.group(2) in want:
                        res[m.group(2)] = parse_init(line)
        for s in syms:
            if s not in res:
                raise Broken('constant %s not emitted' % s)
        return res, bad
    raise Broken('too many rounds')


def parallel(jobs):
    """jobs: keyword dictionaries for `values`."""
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        out = list(ex.map(lambda j: values(**j), jobs))
    v, b = {}, {}
    for x, y in out:
        v.update(x)
        b.update(y)
    return v, b


def pad(v, n):
    return list(v) + [0] * (n - len(v)) if len(v) < n else list(v)
