"""kf.py PROPERTY COMMIT TEXT: add a fixed entry to known_findings.json."""
import json
import sys
p = 'known_findings.json'
s = open(p).read()
i = s.rindex('}\n ]')
e = json.dumps({'property': sys.argv[1], 'status': 'fixed',
                'commit': sys.argv[2],
                'what': 'fixed: property={} {} {}'.format(*sys.argv[1:4])})
s = s[:i + 1] + ',\n  ' + e + s[i + 1:]
json.loads(s)
open(p, 'w').write(s)
