cd /repo; bash /opt/vp/build.sh >/dev/null 2>&1; bash /opt/vp/test.sh /tmp/o.json >/dev/null 2>&1
python3 - <<'P'
import json; b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/o.json'))
p=set(o.get('passed',[])); s=set(b['stable']) ; print('stable',len(s),'pass',len(s&p),'missing',sorted(s-p)[:5])
P
git status --short
