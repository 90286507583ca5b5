#!/bin/bash
# check.sh PROPERTY [tier]: builds the simulator with the library of /repo's working tree and runs the property's check.
# The library is built with its debug assertions and overflow checks; the thorough tier then runs further seeds against
# a build as users get it. F21 runs a build whose clients call through the C interface of rs_ffi.
cd "$(dirname "$0")" || exit 2
tier=${2:-${VERIF_TIER:-quick}}
seed=${VERIF_SEED:-1}
target=sim/target
opts=
[ "$1" = F21 ] && { target=sim/target-ffi; opts="--features ffi --target-dir target-ffi"; }
build() {
  out=$(cd sim && cargo build --profile "$1" --offline $opts 2>&1) || { echo "$out" | tail -40 >&2; echo "error: the library or the simulator does not build" >&2; exit 2; }
}
build release
if [ "$tier" != thorough ]; then
  exec $target/release/dst run "$1" --seed "$seed" --tier "$tier"
fi
build shipped
$target/release/dst run "$1" --seed "$seed" --tier "$tier" || exit
exec $target/shipped/dst run "$1" --seed "$((seed + 1000))" --tier "$tier" --secs 400
