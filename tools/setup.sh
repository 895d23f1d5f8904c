#!/bin/bash
# nothing is kept between runs: every check builds its own driver. Verify that the toolchain is there.
set -e
cd "$(dirname "$0")/.."
command -v java >/dev/null
test -f /opt/veriftools/tla/tla2tools.jar
command -v g++-14 >/dev/null || command -v g++ >/dev/null
mkdir -p build evidence
echo "tools present"
