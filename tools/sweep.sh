#!/bin/bash
# tools/sweep.sh PROP [tier] [seeds...]: run one check under several seeds
P=$1; T=${2:-quick}; shift 2; cd "$(dirname "$0")/.."
for s in "${@:-2}"; do VERIF_SEED=$s python3 check.py $P $T 2>&1 | cut -c1-500 | grep -v "cases .*rejected"; done
