# Regenerates the confirmed reference tables (run by hand, never by a check).
import json, sys
sys.path.insert(0, '/verif/lib')
import wire
json.dump(wire.snapshot(lambda m: m.startswith('principia.serialization.') and 'CheckpointerTestMessage' not in m and 'Tabulated' not in m),
          open('/verif/tables/wire.json', 'w'), indent=0, sort_keys=True)
json.dump(wire.snapshot(lambda m: m.startswith('principia.journal.')),
          open('/verif/tables/journal_wire.json', 'w'), indent=0, sort_keys=True)
