cd /tmp/ct; N=400 ./all.sh /repo > new.txt 2>&1
for f in orig new; do sed 's/:[0-9]*:/:/g; s#/tmp/orig##g; s#/repo##g; s/\.c:[0-9]*/.c/' $f.txt > $f.n; done; diff orig.n new.n
