#!/bin/bash
# first state of a root in which a sequence loses its order: loss.sh ROOT [SECS]
CHRONO_VERBOSE=5 CHRONO_SECS=${2:-20} W=3000 /verif/tools/dev.sh $1 > /tmp/v.txt 2>&1; awk '/^loss/{n++} n==1' /tmp/v.txt | sed 's/Agg(AggV { variant: 0, fields: \[Int(\(s[0-9]*[-+0-9s]*\))\] })/T(\1)/g; s/Agg(AggV { variant: 0, fields: \[T(\([^)]*\)), T(\([^)]*\))\] })/[\1,\2]/g; s/Agg(AggV { variant: \([0-9]*\), fields/A(\1/g; s/Rc::new//g' > /tmp/v1.txt
grep -E "^loss| = |^  in " /tmp/v1.txt | grep -v Uninit | cut -c1-${W2:-420}
sed -n '/^---/,/^  ghosts/p' /tmp/v1.txt | grep -E "^  s[0-9]* in |ghosts|^[^-]* <= 0$" | grep -v " - " | paste -sd, | cut -c1-2500
