#!/bin/sh
# builds the fact extractor and warms the dependency metadata
cd "$(dirname "$0")" || exit 2
PYTHONPATH=. exec python3 -c "from engine import run; run.build_driver(); run.facts('all'); from engine import witnesses; witnesses.library()"
