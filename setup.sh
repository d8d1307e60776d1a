#!/bin/bash
# Nothing to install: every check builds what it needs from /repo.  Confirms the toolchain works.
set -e
cd "$(dirname "$0")"
mkdir -p build evidence replays
clang++ --version | head -1
python3 -c 'import lib.checks'
