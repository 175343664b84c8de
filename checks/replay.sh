#!/bin/sh
# replay a counterexample file on the real library:  checks/replay.sh CASE
d=$(cd "$(dirname "$0")/.." && pwd); c=$1; id=$(sed -n 's/^property //p' "$c" | tr A-Z a-z); t=$(sed -n 's/^tier //p' "$c")
SYM_ENTRY=$(sed -n 's/^unit //p' "$c") ASAN_OPTIONS=detect_leaks=0:exitcode=99:allocator_may_return_null=1 exec "${VERIF_BUILD:-$d/build}/h/$id.$t.replay" "$c"
