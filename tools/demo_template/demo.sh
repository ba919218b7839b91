#!/bin/bash
# Builds from the current directory in a scratch directory and runs demo.cc/run.sh
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d /tmp/demo.XXXXXX)
trap 'find "$T" -delete' EXIT
if [ -e "$D/demo.cc" ]; then python3 "$D/mk.py" "$T" "$D/demo.cc" || exit 3; else python3 "$D/mk.py" "$T" || exit 3; fi
mkdir "$T/ws"
export HOME="$T"
if [ -e "$D/run.sh" ]; then (cd "$T/ws" && bash "$D/run.sh" "$T/bant") || exit 1; fi
if [ -e "$D/demo.cc" ]; then (cd "$T/ws" && "$T/demo") || exit 1; fi
exit 0
