#!/bin/bash
# dev.sh PROP [CONTRACT-REGEX] [flags]: verify the contracts of a property and print every failing obligation
cd "$(dirname "$0")"; . ./env.sh; (cd tool && go build -o ../bin/govc .) || exit 2
P=$1; C=${2:-.}; shift; shift
exec ./bin/govc -root /verif -prop $P -contract "$C" "$@"
