cd /verif
for i in $(seq 1 30); do c=$(printf C%02d $i); s=$(date +%s); timeout 900 python3 check.py $c quick > /tmp/w/all.$c.log 2>&1; rc=$?; echo "$c rc=$rc $(( $(date +%s)-s ))s"; [ $rc -ne 0 ] && tail -4 /tmp/w/all.$c.log | cut -c1-500; done
true
