#!/bin/bash
# Proof phases of all (or the given) properties; prints what is not proved (development aid).
cd /verif
for i in ${@:-$(seq -f 'C%02g' 1 26)}; do
  s=$(date +%s); tools/p.sh $i 800 2>&1 | grep -v "^{" | head -6 | cut -c1-300 | sed "s/^/$i /"; echo "$i $(( $(date +%s) - s )) s"
done
