cd /verif; PV_DEBUG=1 python3-vt pv/run.py $1 "$2" -v 2>&1 | tail -${3:-14}
