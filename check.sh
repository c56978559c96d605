#!/bin/bash
# check.sh <property>: rebuild the model checker against /repo's working tree and run one check.
# Exit 0: held; 1: VIOLATION printed; anything else: the check itself failed.
D=$(cd "$(dirname "$0")" && pwd)
. "$D/build.sh" || exit 2
export VERIF_DIR=$D
exec "$D/mc/target/release/mc" check "$1"
