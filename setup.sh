#!/bin/bash
# Builds the AST exporter from the committed source (idempotent; checks also build what is missing).
cd "$(dirname "$0")" || exit 2
mkdir -p build evidence
python3 -B -c 'import sys; sys.path.insert(0, "."); from astp.load import exporter; exporter()' || exit 2
