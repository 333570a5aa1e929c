#!/bin/bash
exec python3 "$(dirname "$0")/analysis/check.py" "$@"
