#!/bin/bash
# run the harness of some properties: tools/h.sh ID...   (short output)
for c in "$@"; do
  o=$(HARNESS_LAST=/tmp/hl.$$ /verif/build/harness/debug/harness $c 2>&1 | tail -1 | cut -c1-${W:-160}); echo "$c $o"
done
rm -f /tmp/hl.$$
