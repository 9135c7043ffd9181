bash /opt/vp/build.sh >/tmp/b.log 2>&1; bash /opt/vp/test.sh /tmp/out.json >/tmp/t.log 2>&1; python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json'));o=json.load(open('/tmp/out.json'))
print(len(o['passed']), set(b['stable'])-set(o['passed']))
P
