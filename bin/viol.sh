# developer aid: show the replays of the violated checks of a property
for f in /verif/build/replay/$1/*; do case $f in *.reach_*) continue;; esac; [ -z "$(find $f -mmin -3)" ] && continue; echo "== $f"; cat $f | tr '\n' ' '; fn=$(basename $f | cut -d. -f1); RSYM_LOG=1 RSYM_INPUTS=$f python3 -c "import ctypes; ctypes.CDLL('/verif/build/out/$1/h.so').$fn()" 2>&1 | grep -v data | tail -${2:-3}; done
