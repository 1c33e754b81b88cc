#!/bin/bash
# nothing is built ahead of time: each check builds its harness from /repo's working tree
cd "$(dirname "$0")/.." && mkdir -p evidence out
command -v mpicxx mpirun java python3 >/dev/null && test -f /opt/veriftools/tla/tla2tools.jar
