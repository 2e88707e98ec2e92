#!/bin/bash
# Are the event logs of runs the same for other hash seeds, time zones, locales
# and histories of the process? N: runs per property
T=$(mktemp -d); trap "rm -r $T" EXIT
cd "$(dirname "$0")/.."
for p in 01 02 03 04 05 06 07 08 09 10 11 12 13 14 15 16 17; do
  n=${N:-60}
  PYTHONHASHSEED=0 /opt/venv/bin/python -m sim.check --digests C$p $n 0 1 2>/dev/null > $T/dg.a
  (PYTHONHASHSEED=77 TZ=Asia/Tokyo /opt/venv/bin/python -m sim.check --digests C$p $n 1 3; PYTHONHASHSEED=random /opt/venv/bin/python -m sim.check --digests C$p $n 2 3;PYTHONHASHSEED=5 LANG=de_AT.UTF-8 /opt/venv/bin/python -m sim.check --digests C$p $n 0 3) 2>/dev/null | sort -k2n > $T/dg.b
  if cmp -s $T/dg.a $T/dg.b; then echo "C$p same $(wc -l < $T/dg.a)"; else echo "C$p DIFF"; diff $T/dg.a $T/dg.b | head -4; fi
done
