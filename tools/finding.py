"""finding.py <id> <property> <fixed|open> <what> [key] [clause]: add an entry to known_findings.json (never called by a check)."""
import json, os, sys
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'known_findings.json')
d = json.load(open(p))
a = sys.argv[1:] + ['', '']
d['findings'] = [f for f in d['findings'] if f['id'] != a[0]] + [dict(id=a[0], property=a[1], status=a[2], key=a[4], clause=a[5], what=a[3])]
json.dump(d, open(p, 'w'), indent=1)
