#!/bin/sh
# Validates lib/intrin (the C semantics given to x86 intrinsics) on this CPU.
d=$(mktemp -d); here=$(dirname "$0")
gcc -O1 -w -maes -msha -mssse3 -msse4.1 $here/test_intrin.c -o $d/hw && gcc -O1 -w -DSHIM -I$here/../lib/intrin $here/test_intrin.c -o $d/sw && $d/hw > $d/a && $d/sw > $d/b && cmp $d/a $d/b && wc -l < $d/a
r=$?; rm -r "$d"; exit $r
