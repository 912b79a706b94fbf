#!/bin/bash
# Build the extension modules of /repo's working tree into /verif/.build (content-keyed; checks re-check on every run).
cd "$(dirname "$0")" || exit 2
export PATH=/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
exec /opt/venv/bin/python -W ignore -m vlib.build
