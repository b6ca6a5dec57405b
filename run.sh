#!/bin/bash
# run.sh <property> [quick|thorough]: analyse the current source of /repo for one property.
here=$(cd "$(dirname "$0")" && pwd)
. "$here/setup.sh" || exit 3
tier=${2:-${VERIF_TIER:-quick}}
exec "$here/.build/sa" -prop "$1" -tier "$tier" -repo /repo -evidence "$here/evidence" -known "$here/KNOWN_FINDINGS"
