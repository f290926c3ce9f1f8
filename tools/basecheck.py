#!/usr/bin/env python3
"""Build /repo, run its tests, compare with the stable baseline."""
import json, subprocess, sys
subprocess.run(['bash','/opt/vp/build.sh'],check=True,stdout=subprocess.DEVNULL,stderr=subprocess.DEVNULL)
subprocess.run(['bash','/opt/vp/test.sh','/tmp/o.json'],stdout=subprocess.DEVNULL,stderr=subprocess.DEVNULL)
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/o.json'))
print({k:(v if not isinstance(v,(list,dict)) else len(v)) for k,v in b.items()}, {k:(v if not isinstance(v,(list,dict)) else len(v)) for k,v in o.items()})

m=set(b['stable'])-set(o['passed'])
print('LOST: '+str(m) if m else 'all stable tests pass'); sys.exit(bool(m))
