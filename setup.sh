#!/bin/bash
# builds the MIR driver and warms the dependency build of the analysed crate; nothing is written outside /verif
set -e
cd "$(dirname "$0")"
mkdir -p work evidence
bash dump.sh work/setup.mir.json
rm -f work/setup.mir.json
