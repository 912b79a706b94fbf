#!/bin/bash
# usage: run.sh <property id> [--thorough]   (from anywhere)
cd "$(dirname "$0")" || exit 2
export PATH=/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export HOME=${HOME:-/root} MPLCONFIGDIR=${MPLCONFIGDIR:-/tmp/verif-mpl}
exec /opt/venv/bin/python -W ignore -m vlib.mc "$@"
