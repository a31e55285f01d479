#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vlib, wire

RULE = ('The compiled schema of serialization/journal.proto is compared with the confirmed reference '
        'schema: every journalled method keeps its extension number in Method, every In/Out/Return field '
        'and interchange message keeps its number, wire type, cardinality and default, and every method '
        'extension number is unique and in the declared range.')


def check(c):
    ref = wire.table('journal_wire.json')
    d, msgs, exts = wire.schema()
    cmp = wire.Comparison(c, ref, d, msgs, exts)
    M = 'principia.journal.serialization.Method'
    if M not in msgs:
        raise vlib.Broken('Method message not found')
    cmp.compare_message(M, M)
    for m in sorted(ref['messages']):
        if m in msgs:
            cmp.compare_message(m, m)
        elif not any(o == m for o, n in cmp.done):
            c.violation(m, m, 'message removed and nothing refers to a replacement')
    # No number used by a confirmed method is taken over by another method.
    seen = {}
    for n, e in exts.get(M, {}).items():
        c.obligation()
        lo_hi = d['messages'][M]['ranges']
        if not any(lo <= int(n) < hi for lo, hi in lo_hi):
            c.violation('range:' + e['scope'], e['scope'], 'extension number %s out of range' % n)
        if n in ref['extensions'][M] and ref['extensions'][M][n]['scope'] != e['scope']:
            c.violation('reuse:' + e['scope'], e['scope'], 'takes over number %s of %s' % (
                n, ref['extensions'][M][n]['scope']))
        if seen.setdefault(n, e['scope']) != e['scope']:
            c.violation('dup:' + n, e['scope'], 'number %s is also used by %s' % (n, seen[n]))
    c.require('method_extensions', len(exts.get(M, {})), 168)
    c.require('fields', cmp.fields, 700)


vlib.main(check, 'C02', 'proof', RULE)
