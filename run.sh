#!/bin/bash
# run.sh PROPERTY [quick|thorough] [engine flags]     run.sh PROPERTY --replay FILE
V=$(cd "$(dirname "$0")" && pwd)
P=$1; shift
T=${VERIF_TIER:-quick}
case "$1" in quick|thorough) T=$1; shift;; esac
"$V/build.sh" || { echo "INCONCLUSIVE: the engine does not build"; exit 2; }
exec "$V/bin/gosym" -verif "$V" -repo "${VERIF_REPO:-/repo}" -prop "$P" -tier "$T" "$@"
