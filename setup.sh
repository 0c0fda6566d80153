#!/bin/bash
# Nothing to build: the checks run the sources of /repo directly. This only
# makes sure that the interpreter and the packages they need are there.
set -e
cd "$(dirname "$0")"
/opt/venv/bin/python -c 'import sys, cerberus, websockets, vcorelib; assert sys.version_info >= (3, 12)'
mkdir -p evidence replays
