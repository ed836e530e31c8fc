#!/bin/bash
# developer aid: r.sh ID FN [engine options]: run one harness of the last build of ID verbosely
D=/verif/build/target/debug/deps
id=$1; f=$2; shift 2
LL=/verif/build/out/$id/h.ll; for c in solana_program anchor_lang anchor_spl spl_token borsh serum_dex bytemuck fixed arrayref; do for x in $D/$c-*.ll; do [ -e $x ] && LL=$LL,$x; done; done
for x in /verif/build/std/*.ll; do LL=$LL,$x; done
timeout ${T:-600} /verif/build/engine/release/rsym --ll $LL --fn $f --out /tmp/$f.json -v "$@" 2>&1
