#!/bin/bash
# Nothing to install: checks build what they need. Verify the tools are there.
cd "$(dirname "$0")/.." || exit 1
java -cp /opt/veriftools/tla/tla2tools.jar tla2sany.SANY -help >/dev/null 2>&1
command -v g++ >/dev/null && command -v java >/dev/null && command -v python3 >/dev/null && test -f /opt/veriftools/tla/tla2tools.jar
