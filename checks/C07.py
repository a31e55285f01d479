#!/usr/bin/env python3
import os, re, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(HERE, '..', 'lib'), os.path.join(HERE, '..', 'tables')]
import ai, astlib, units, vlib
from ai import kids, sugar, ty
from vlib import Broken

RULE = ('The compiler evaluates every unit and constant, and the type-level arithmetic of dimensions; the exponents and '
        'the magnitudes are compared with tables written from the SI brochure, the IAU resolutions and CODATA. The '
        'operators of Quantity are decided on the resolved AST, as terms on the magnitudes of their operands. The '
        'table of the units that are parsed is obtained by abstract interpretation of ParseUnit over the conditions '
        'on its argument.')

PRELUDE = '''
#include <array>
namespace verif {
using namespace principia::quantities::_dimensions;
using namespace principia::quantities::_quantities;
using namespace principia::quantities::_generators;
template<typename T> struct X;
template<> struct X<double> { static constexpr std::array<long, 8> v{}; };
template<long A, long B, long C, long D, long E, long F, long G, long H>
struct X<Quantity<Dimensions<A, B, C, D, E, F, G, H>>> {
  static constexpr std::array<long, 8> v{A, B, C, D, E, F, G, H};
};
template<typename T> constexpr std::array<long, 8> x = X<std::remove_cvref_t<T>>::v;
template<typename T> constexpr double si(T const& t) {
  return t / principia::quantities::_quantities::internal::SIUnit<T>();
}
constexpr double si(double t) { return t; }
}
'''
INC = ['quantities/%s.hpp' % h for h in ('quantities', 'named_quantities', 'si', 'astronomy', 'constants', 'uk', 'bipm',
                                         'cgs', 'parser', 'generators', 'dimensions')]
NS = '::principia::quantities::'


def check(c):
    ex, want = {}, {}
    n = [0]

    def dims(expr, exps, what, key):
        s = 'd%d' % n[0]; n[0] += 1
        ex[s] = ('std::array<long, 8>', 'verif::x<%s>' % expr)
        want[s] = ('dims', exps, what, key)

    def value(expr, v, what, key):
        s = 'v%d' % n[0]; n[0] += 1
        ex[s] = ('double', expr)
        want[s] = ('value', v, what, key)

    for ns, table in units.CONSTANTS.items():
        for name, (v, d) in table.items():
            q = NS + ns + '::' + ('' if '::' in name else 'internal::') + name
            dims('decltype(%s)' % q, units.D(d), 'the unit or constant ' + name, ns + '::' + name)
            value('verif::si(%s)' % q, v, 'the unit or constant ' + name, ns + '::' + name)
    for name, d in {**units.BASE, **units.NAMED}.items():
        ns = '_quantities' if name in units.BASE else '_named_quantities'
        dims(NS + ns + '::' + name, units.D(d), 'the quantity ' + name, name)
    for p, k in units.PREFIXES.items():
        value('verif::si(%s_si::%s(%s_si::Metre))' % (NS, p, NS), 10.0 ** k, 'the prefix ' + p, p)
        dims('decltype(%s_si::%s(%s_si::Ampere))' % (NS, p, NS), units.D('I'), 'the prefix ' + p, p)
    # The type-level arithmetic, on exponents that are all different.
    A, B = [2, -3, 5, -7, 11, -13, 17, -19], [23, 29, -31, 37, -41, 43, -47, 53]
    Q = lambda e: 'Quantity<Dimensions<%s>>' % ', '.join(map(str, e))
    V = 'verif::'
    q = lambda e: V + 'Quantity<verif::Dimensions<%s>>' % ', '.join(map(str, e))
    add = lambda a, b: [x + y for x, y in zip(a, b)]
    neg = lambda a: [-x for x in a]
    mul = lambda a, k: [x * k for x in a]
    Z = [0] * 8
    G = NS + '_generators::'
    I = NS + '_quantities::internal::'
    small = [[1 if i == j else 0 for i in range(8)] for j in range(8)]
    pairs = [(A, B), (B, A), (A, A), (A, neg(A)), (small[2], small[2])] + [(a, b) for a in small for b in small]
    for a, b in pairs:
        for e, r in (('%sProduct<%s, %s>' % (I, q(a), q(b)), add(a, b)),
                     ('%sQuotient<%s, %s>' % (I, q(a), q(b)), add(a, neg(b))),
                     ('decltype(std::declval<%s>() * std::declval<%s>())' % (q(a), q(b)), add(a, b)),
                     ('decltype(std::declval<%s>() / std::declval<%s>())' % (q(a), q(b)), add(a, neg(b)))):
            dims(e, r, e, 'type:' + e)
    for a in [A, B] + small:
        for e, r in (('%sProduct<%s, double>' % (I, q(a)), a), ('%sProduct<double, %s>' % (I, q(a)), a),
                     ('%sQuotient<%s, double>' % (I, q(a)), a), ('%sQuotient<double, %s>' % (I, q(a)), neg(a)),
                     ('decltype(std::declval<%s>() * 2.0)' % q(a), a), ('decltype(2.0 * std::declval<%s>())' % q(a), a),
                     ('decltype(std::declval<%s>() / 2.0)' % q(a), a),
                     ('decltype(2.0 / std::declval<%s>())' % q(a), neg(a)),
                     ('decltype(std::declval<%s>() + std::declval<%s>())' % (q(a), q(a)), a),
                     ('decltype(std::declval<%s>() - std::declval<%s>())' % (q(a), q(a)), a),
                     ('decltype(-std::declval<%s>())' % q(a), a), ('decltype(+std::declval<%s>())' % q(a), a)):
            dims(e, r, e, 'type:' + e)
        for k in range(-4, 6):
            e = 'typename ::principia::base::_algebra::internal::ExponentiationGenerator<%s, %d>::type' % (q(a), k)
            dims(e, mul(a, k), e, 'type:' + e)
        for k in range(1, 6):
            e = 'typename %sinternal::NthRootGenerator<%s, %d>::Type' % (G, q(mul(a, k)), k)
            dims(e, a, e, 'type:' + e)
    # Numeric behaviour of the mixed operators, at compile time.
    try:
        got = astlib.constants(INC, ex, prelude=PRELUDE)
    except Broken as err:
        # Find the type-level obligations that do not compile.
        raise
    for s, (kind, w, what, key) in want.items():
        g = got[s]
        c.obligation(1, '%s: %s' % (what[:80], g))
        if kind == 'dims':
            g = list(g) or [0] * 8
            if g != w:
                c.violation('dimension:' + key, what, '%s has the exponents %s instead of %s' % (what, g, w))
        elif not abs(g[0] - w) <= 4e-15 * abs(w):
            c.violation('value:' + key, what, '%s is %r in SI units instead of %r' % (what, g[0], w))
    operators(c)
    parser(c)
    c.require('constants', sum(map(len, units.CONSTANTS.values())), 100)
    c.require('type-level obligations', sum(1 for w in want.values() if w[0] == 'dims'), 400)


OPS_PROBE = '''#include "quantities/quantities.hpp"
namespace principia::quantities::_quantities::internal {
using A_ = Quantity<Dimensions<1, 0, 2, 0, 0, 0, 0, 0>>;
using B_ = Quantity<Dimensions<0, 3, 0, 0, 0, 0, 0, 1>>;
template class Quantity<Dimensions<1, 0, 2, 0, 0, 0, 0, 0>>;
inline auto verif_p(A_ const& a, B_ const& b) { return a * b; }
inline auto verif_q(A_ const& a, B_ const& b) { return a / b; }
inline auto verif_lp(double a, B_ const& b) { return a * b; }
inline auto verif_lq(double a, B_ const& b) { return a / b; }
inline auto verif_rp(A_ const& a, double b) { return a * b; }
inline auto verif_rq(A_ const& a, double b) { return a / b; }
inline auto verif_s(A_ const& a, A_ const& b) { return a + b; }
inline auto verif_d(A_ const& a, A_ const& b) { return a - b; }
inline auto verif_n(A_ const& a) { return -a; }
inline auto verif_i(A_ const& a) { return +a; }
inline void verif_sa(A_& a, A_ const& b) { a += b; }
inline void verif_da(A_& a, A_ const& b) { a -= b; }
inline void verif_pa(A_& a, double b) { a *= b; }
inline void verif_qa(A_& a, double b) { a /= b; }
inline double verif_pp(A_ const& a, Quantity<Dimensions<-1, 0, -2, 0, 0, 0, 0, 0>> const& b) { return a * b; }
inline double verif_qq(A_ const& a, A_ const& b) { return a / b; }
}
'''
EXPECT = {'p': '*', 'q': '/', 'lp': '*', 'lq': '/', 'rp': '*', 'rq': '/', 's': '+', 'd': '-', 'sa': '+', 'da': '-',
          'pa': '*', 'qa': '/', 'pp': '*', 'qq': '/', 'n': 'u-', 'i': ''}


class OpInterp(ai.Interp):
    def on_construct(self, t, node, args, st, fr):
        if re.match(r'^(const )?.*Quantity<', t) and args and len(args) == 1 and 'Quantity<' not in ty(kids(node)[0]):
            return [(args[0][0], st)]
        return None

    def field_of(self, base, name):
        return base

    def peek(self, path, st, fr=None):
        # A quantity is its magnitude.
        while path[0] == 'fld' and path not in st.store:
            path = path[1]
        return super().peek(path, st, fr)

    def write(self, path, value, node, st, fr, src=None):
        while path[0] == 'fld':
            path = path[1]
        super().write(path, value, node, st, fr, None)

    def lvalue(self, n, st, fr):
        return super().lvalue(n, st, fr)


def operators(c):
    tu = ai.TU(OPS_PROBE, '_quantities')
    n = 0
    for name, op in EXPECT.items():
        d = next((f for f in tu.funcs if f.get('name') == 'verif_' + name), None)
        if d is None:
            raise Broken('operator probe %s not found' % name)
        I = OpInterp(tu)
        a, b = ('s', 'param', 'a'), ('s', 'param', 'b')
        res = I.run(d, None)
        c.obligation(1, 'operator %s of Quantity' % name)
        n += 1
        for v, s in res:
            if name.endswith('a') and name != 'a':
                v = s.store.get(('param', 'a'))
            v = norm(v)
            w = {'': a, 'u-': ('t', 'u-', a)}.get(op) or ('t', op, a, b)
            alts = [w]
            if op in ('+', '*'):
                alts.append(('t', op, b, a))
            if op == '-':
                alts.append(('t', '+', a, ('t', 'u-', b)))
            if v not in alts:
                c.violation('operator:' + name, astlib.where(d), 'the magnitude of the result of operator %s (%s) is not '
                            'that of the operands combined by it: %r' % (op or '+', name, v))
        if not res:
            c.violation('operator:' + name, astlib.where(d), 'operator %s (%s) does not return' % (op, name))
    c.require('operators', n, 16)


def norm(v):
    if v is None:
        return v
    while v[0] == 't' and v[1] in ('init', 'moved') and len(v) in (3, 4) and isinstance(v[-1], tuple):
        v = v[-1]
    if v[0] == 't':
        return ('t', v[1]) + tuple(norm(x) if isinstance(x, tuple) else x for x in v[2:])
    return v


class ParserInterp(ai.Interp):
    def on_call(self, name, ref, n, recv, args, st, fr):
        if name == 'operator==':
            vals = [v for v, p in args]
            if recv is not None:
                vals = [self.peek(recv, st, fr)] + vals
            return [(('t', '==') + tuple(vals), st)]
        if name == 'empty':
            return [(('t', '==', self.peek(recv, st, fr), ('c', '""')), st)]
        return None

    def on_construct(self, t, node, args, st, fr):
        if t.endswith('Unit') and args and len(args) == 1:
            a = kids(node)[0]
            if 'Unit' in ty(a):
                return [(args[0][0], st)]
            src = strip_const(a)
            return [(('unit', ty(a), src), st)]
        if 'Quantity<' in t and args and len(args) == 1 and 'Quantity<' in ty(kids(node)[0]):
            return [(args[0][0], st)]
        return None

    def inline(self, decl, node, fr):
        return True


LOCALS = {}


def strip_const(a):
    """The expression from which a unit is built, as C++ text."""
    k = a.get('kind')
    cs = kids(a)
    if k == 'FloatingLiteral' or k == 'IntegerLiteral':
        return str(float(a['value']))
    if k == 'DeclRefExpr':
        r = a['referencedDecl']
        if r.get('id') in LOCALS:
            return strip_const(LOCALS[r['id']])
        return ('ref', r.get('id'), r.get('name'))
    if k == 'CallExpr':
        f = ai.strip(cs[0])
        return ('call', f['referencedDecl'].get('name')) + tuple(strip_const(x) for x in cs[1:])
    if k in ('CXXOperatorCallExpr', 'BinaryOperator'):
        op = a.get('opcode') or ai.strip(cs[0])['referencedDecl']['name'][8:]
        ops = cs if k == 'BinaryOperator' else cs[1:]
        return ('op', op) + tuple(strip_const(x) for x in ops)
    if len(cs) >= 1 and (k in ai.TRANSPARENT or k == 'CXXConstructExpr'):
        return strip_const(cs[0])
    raise Broken('the unit expression %s at %s is not understood' % (k, astlib.where(a)))


NAMES = {}
for _ns, _t in units.CONSTANTS.items():
    for _k, _v in _t.items():
        NAMES.setdefault(_k.split('::')[-1], []).append((_ns, _v))


def evaluate(x, homes):
    """(value, exponents) of a unit expression, from the reference tables."""
    if isinstance(x, str):
        return float(x), [0] * 8
    if x[0] == 'ref':
        ns = homes.get(x[1])
        cands = [v for n, v in NAMES.get(x[2], []) if ns is None or n == ns]
        if x[2] == 'NauticalMile':
            cands = [v for n, v in NAMES[x[2]] if n == (ns or '_bipm')]
        if len(cands) != 1:
            raise Broken('the unit %s is not in the reference table' % x[2])
        return float(cands[0][0]), units.D(cands[0][1])
    if x[0] == 'call':
        if x[1] in units.PREFIXES:
            v, d = evaluate(x[2], homes)
            return v * 10.0 ** units.PREFIXES[x[1]], d
        raise Broken('the function %s is not in the reference table' % x[1])
    if x[0] == 'op' and len(x) == 4:
        (a, d), (b, f) = evaluate(x[2], homes), evaluate(x[3], homes)
        if x[1] == '*':
            return a * b, [i + j for i, j in zip(d, f)]
        if x[1] == '/':
            return a / b, [i - j for i, j in zip(d, f)]
    raise Broken('the unit expression %r is not understood' % (x,))


def parser(c):
    tu = ai.TU('#include "quantities/parser.hpp"\n', '_parser')
    d = next((f for f in tu.funcs if f.get('name') == 'ParseUnit'), None)
    if d is None:
        raise Broken('ParseUnit not found')
    for v in astlib.walk(d):
        if v.get('kind') == 'VarDecl' and kids(v):
            LOCALS[v['id']] = kids(v)[-1]
    I = ParserInterp(tu)
    prm = next(k['name'] for k in kids(d) if k['kind'] == 'ParmVarDecl')
    p = ('s', 'param', prm)
    found = {}
    for v, s in I.run(d, None):
        eq = [t for t, b in s.conds.items() if b and t[0] == 't' and t[1] == '==' and p in t[2:]]
        strs = [next(x for x in t[2:] if x != p) for t in eq]
        key = literal(strs[0]) if len(strs) == 1 else None
        if v[0] != 'unit' or key is None:
            raise Broken('a path of ParseUnit is not understood: %r %r' % (v, eq))
        found.setdefault(key, v)
    for k, (val, dim) in units.PARSED.items():
        c.obligation(1, 'the unit "%s" of the parser' % k)
        if k not in found:
            c.violation('parse:' + k, astlib.where(d), 'the unit "%s" is not parsed' % k)
            continue
        v, x = evaluate(found[k][2], {})
        if x != units.D(dim) or abs(v - val) > 4e-15 * val:
            c.violation('parse:' + k, astlib.where(d), 'the unit "%s" is parsed as %r with exponents %s instead of %r with %s'
                        % (k, v, x, val, units.D(dim)))
    c.require('parsed units', len(found), 20)


def literal(v):
    while v and v[0] in ('loc', 'str') and isinstance(v[1], tuple):
        v = v[1]
    return eval_string(v[1]) if v and v[0] in ('str', 'c') and isinstance(v[1], str) else None


def eval_string(lit):
    import ast
    m = lit.strip()
    if m.startswith('u8'):
        m = m[2:]
    # clang prints octal escapes for the bytes of UTF-8.
    b = m[1:-1]
    out = bytearray()
    i = 0
    raw = b.encode('utf-8')
    while i < len(raw):
        if raw[i:i + 1] == b'\\':
            mm = re.match(rb'\\([0-7]{1,3})', raw[i:])
            if mm:
                out.append(int(mm.group(1), 8)); i += len(mm.group(0)); continue
            mm = re.match(rb'\\x([0-9A-Fa-f]+)', raw[i:])
            if mm:
                out.append(int(mm.group(1), 16)); i += len(mm.group(0)); continue
            mm = re.match(rb'\\[uU]([0-9A-Fa-f]{4,8})', raw[i:])
            if mm:
                out += chr(int(mm.group(1), 16)).encode(); i += len(mm.group(0)); continue
            out.append(raw[i + 1]); i += 2; continue
        out.append(raw[i]); i += 1
    return out.decode('utf-8')


vlib.main(check, 'C07', 'other', RULE)
