"""Compare a result of /opt/vp/test.sh with the baseline. usage: basecmp.py OUT.json"""
import json
import sys
b = json.load(open('/opt/vp/BASELINE.json'))['stable']
o = json.load(open(sys.argv[1]))
bad = [t for t in b if t not in set(o['passed'])]
print(len(b), 'stable,', 'all pass' if not bad else 'NOT PASSING: '+' '.join(bad))
sys.exit(bool(bad))
