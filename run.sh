#!/bin/bash
# usage: run.sh PROPERTY quick|thorough   (debug use: ABS_FILTER, ABS_DEBUG, ABS_WORKERS)
cd "$(dirname "$0")"
exec python3 tools/check.py "$@"
