#!/bin/bash
# usage: ./check.sh ID [quick|thorough|replay FILE]
cd "$(dirname "$0")" || exit 3
exec python3 tools/driver.py "$@"
