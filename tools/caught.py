#!/usr/bin/env python3
# caught.py LOG: records in tools/caught.json which harness reported which planted change, from seedtest.sh output. Not run by any check.
import sys, re, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); f = V + '/tools/caught.json'
d = json.load(open(f)) if os.path.exists(f) else {}
for l in open(sys.argv[1]):
    m = re.match(r'(\S+) prop=(\S+) .* :: (.*)', l)
    if not m: continue
    v = re.search(r'(\S+)\s+violation .*?(?:assert|memory|[a-z]+): ([^|\[]*)', m.group(3))
    d[m.group(1)] = ('`%s` (%s)' % (v.group(1), v.group(2).strip()[:70].split(' at 0x')[0])) if v and 'VIOLATION property=' + m.group(2) in m.group(3) else '**missed**'
json.dump(d, open(f, 'w'), indent=1, sort_keys=True)
