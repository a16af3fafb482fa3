"tools/finding.py PROP COMMIT WHAT   appends a fixed entry to known-findings.json"
import json, os, sys
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),
                 'known-findings.json')
d = json.load(open(p))
prop, commit, what = sys.argv[1:4]
d.append({'property': prop, 'status': 'fixed', 'commit': commit, 'what': what,
          'entry': 'fixed: property=%s %s %s' % (prop, commit, what)})
json.dump(d, open(p, 'w'), indent=1)
open(p, 'a').write('\n')
