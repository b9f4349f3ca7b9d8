# SEED FACTOR
export OMP_NUM_THREADS=1
seq -f 'C%02g' 1 27 | SEED=$1 FACTOR=$2 xargs -P 6 -n 1 bash /tmp/rt.sh | sort
