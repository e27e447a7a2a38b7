#!/bin/bash
# Run with cwd /repo after the build: exit 0 when the property holds.
here="$(cd "$(dirname "$0")" && pwd)"
exec python3 "$here/demo.py"
