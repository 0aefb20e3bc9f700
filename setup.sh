#!/bin/bash
# Builds the simulator (both binaries) against /repo's working tree.
# One build each, as the checks do: a joint build would unify the features of the two
# dependency trees, and every check would compile its own tree anew.
cd "$(dirname "$0")" || exit 2
. ./env.sh
cd sim && cargo build --offline -p vsim && cargo build --offline -p vsimdf
