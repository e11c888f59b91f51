#!/bin/bash
# Compiles the harness once against /repo (warms the Go build cache); checks rebuild it themselves.
cd "$(dirname "$0")" || exit 3
exec python3 tools/driver.py --setup
