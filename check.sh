#!/bin/bash
# usage: check.sh PROPERTY
cd "$(dirname "$0")" || exit 1
exec python3 -m snapver.check "$1"
