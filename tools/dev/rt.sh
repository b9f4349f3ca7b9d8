cd /verif; for p in "$@"; do timeout 600 /opt/venv/bin/python rt/run.py $p --seed ${SEED:-1} --factor ${FACTOR:-1} 2>&1 | tail -1| python3 -c "
import sys,json
d=json.load(sys.stdin); print(d['property'],d['evaluations'],d['wall_s'],[ (f['index'],f['message'][:1200]) for f in d['fails']])"; done
