#!/bin/bash
# Builds the harness once (the checks do this again, as they have to see /repo's
# current tree) and looks at the specification.
set -e
cd "$(dirname "$0")/.."
mkdir -p build evidence
(cd harness && cargo build --release --offline --quiet --features isa --target-dir ../build/h-isa)
(cd harness && cargo build --release --offline --quiet --target-dir ../build/h-plain)
(cd harness && cargo build --profile checked --offline --quiet --features isa --target-dir ../build/h-isa)
(cd harness && cargo build --profile checked --offline --quiet --target-dir ../build/h-plain)
cd spec
for m in GenTables DcpTrace Relate MCDcp Interfaces Cpu MCColor MCLayout MCConvert MCBlocks MCCpu Facts Behave; do
  java -cp "$(ls /opt/veriftools/tla/*.jar | tr '\n' ':')" tla2sany.SANY "$m.tla" >/tmp/sany.$$ 2>&1 || { cat /tmp/sany.$$; exit 1; }
done
rm -f "/tmp/sany.$$"
