#!/bin/bash
# run.sh <property> <quick|thorough>
cd "$(dirname "$0")" || exit 2
exec python3 -B -m vf "$@"
