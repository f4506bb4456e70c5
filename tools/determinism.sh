#!/bin/bash
# Compares the event log digest of every run between two separate processes
# that start at different runs and with different hash seeds.
# usage: tools/determinism.sh [COUNT [PROPERTY...]]
cd "$(dirname "$0")/.." || exit 2
n=${1:-24}; shift
props=${*:-$(ls dst/props | sed -n 's/^c\([0-9]*\)\.py$/C\1/p')}
t=$(mktemp -d /tmp/determinism-XXXXXX)
trap 'rm -rf "$t"' EXIT
bad=0
one() {
    p=$1
    /opt/venv/bin/python -B -W ignore -m dst.runner digest "$p" 0 "$n" >"$t/$p.a" 2>/dev/null
    for h in 0 1; do
        DST_HASHSEED=$h /opt/venv/bin/python -B -W ignore -m dst.runner digest "$p" $((n / 2)) $((n - n / 2)) >"$t/$p.b$h" 2>/dev/null
        tail -n $((n - n / 2)) "$t/$p.a" | cmp -s - "$t/$p.b$h" && echo "$p hashseed $h: same" || echo "$p hashseed $h: DIFFERS"
    done
}
for p in $props; do one "$p" & [ $(jobs -r | wc -l) -ge 8 ] && wait -n; done | tee "$t/out"
wait
! grep -q DIFFERS "$t/out"
