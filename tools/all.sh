cd /verif; for p in "$@"; do (timeout 800 python3-vt run1.py $p > /tmp/out_$p.txt 2>&1; echo done $p) & done; wait
for p in "$@"; do echo "== $p"; cut -c1-400 /tmp/out_$p.txt; done
