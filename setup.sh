#!/bin/bash
# Nothing has to be installed: checks build their harnesses themselves.
cd "$(dirname "$0")" && mkdir -p build out evidence
command -v java >/dev/null && command -v g++ >/dev/null && test -f /opt/veriftools/tla/tla2tools.jar
