#!/bin/bash
# long concrete runs of every check on the unchanged tree: looks for rare false alarms
# usage: stress.sh COUNT SEED [PROPS...]
n=$1; s=$2; shift 2
for p in ${@:-$(seq -f C%02g 1 27)}; do
  VERIF_SEED=$s /verif/check $p --tier thorough --cononly --count $n | grep -E "VIOLATION|^  |^C..:|ERROR"
done
