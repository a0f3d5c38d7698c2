#!/bin/bash
# Runs demo.py against the client that build.sh built from /repo.
exec /usr/bin/python3 -B "$(cd "$(dirname "$0")" && pwd)/demo.py"
