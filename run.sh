#!/bin/bash
# run.sh PROPERTY [quick|thorough] [more options]
cd "$(dirname "$(readlink -f "$0")")" || exit 2
P=$1; T=${2:-quick}; shift 2
exec env PYTHONHASHSEED=0 python3-vt -B -m sx.runner "$P" --tier "$T" "$@"
