#!/bin/bash
# Nothing is compiled; checks that the tools the checks need are there and that the specifications parse.
set -e
cd "$(dirname "$0")"
/opt/venv/bin/python -c 'import pluggy, mixins'
for m in spec/*Model.tla spec/*Trace.tla; do
  (cd spec && java -cp /opt/veriftools/tla/tla2tools.jar:$(ls /opt/veriftools/tla/*.jar | tr '\n' ':') tla2sany.SANY "$(basename "$m")" > /dev/null)
done
mkdir -p evidence work
echo setup ok
