#!/bin/bash
# Build the fact extractor and warm the fact cache (checks do both themselves when needed).
set -e
cd "$(dirname "$0")"
python3 - <<'P'
import sys
sys.path.insert(0, 'sa')
import facts
facts.extract()
P
