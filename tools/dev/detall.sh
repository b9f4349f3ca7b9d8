ls /verif/seeded | grep "${1:-b}" | xargs -P 6 -n 1 bash /tmp/plant/one.sh | sort
