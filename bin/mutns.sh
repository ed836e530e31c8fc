#!/bin/sh
# developer aid: mutns.sh ID FILE 'sed -E expr' [FN]: mut.sh inside a user namespace with copies of /repo and /verif mounted over them
# (refresh the copies first: mutns.sh --sync)
if [ "$1" = --sync ]; then
    mkdir -p /tmp/mr /tmp/mv
    rsync -a --delete --exclude=/target /repo/ /tmp/mr/ 2>/dev/null || { rm -rf /tmp/mr; mkdir /tmp/mr; (cd /repo; tar cf - --exclude=./target .) | tar xf - -C /tmp/mr; }
    rsync -a --delete /verif/ /tmp/mv/ 2>/dev/null || { rm -rf /tmp/mv; cp -a /verif /tmp/mv; }
    exit
fi
exec unshare -Urm sh -c 'mount --bind /tmp/mr /repo; mount --bind /tmp/mv /verif; cd /verif; exec sh bin/mut.sh "$@"' sh "$@"
