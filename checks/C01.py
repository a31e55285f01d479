#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vlib, wire

RULE = ('The compiled schema of serialization/*.proto is compared, structurally and coinductively from '
        'every message of the confirmed reference schema, with the schema of the current tree: every '
        'field, enumerator and extension number keeps its wire type, cardinality, default and meaning; '
        'nothing is removed, renumbered or made required; additions are unconstrained.')


def check(c):
    ref = wire.table('wire.json')
    d, msgs, exts = wire.schema()
    text = wire.text_closure(ref, ['principia.serialization.SolarSystemFile'])
    cmp = wire.Comparison(c, ref, d, msgs, exts, text)
    root = 'principia.serialization.Plugin'
    if root not in msgs or 'principia.serialization.SolarSystemFile' not in msgs:
        raise vlib.Broken('root messages not found')
    cmp.compare_message(root, root)
    cmp.compare_message('principia.serialization.SolarSystemFile', 'principia.serialization.SolarSystemFile')
    # Messages reached through extensions are compared from the extendee.
    for m in sorted(ref['messages']):
        if m in msgs:
            cmp.compare_message(m, m)
        elif not any(o == m for o, n in cmp.done):
            c.violation(m, m, 'message removed and nothing refers to a replacement')
    for f, s in ref['syntax'].items():
        if f in d['syntax'] and d['syntax'][f] != s and 'journal' not in f:
            c.violation('syntax:' + f, f, 'syntax changed from %s to %s' % (s, d['syntax'][f]))
    c.require('messages', len(cmp.done), 120)
    c.require('fields', cmp.fields, 440)


vlib.main(check, 'C01', 'proof', RULE)
