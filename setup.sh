#!/bin/bash
# Build the fact extractor and warm the fact cache once (every check can also do this itself).
cd "$(dirname "$0")" || exit 2
exec python3 -c "import sys; sys.path.insert(0,'engine'); import facts_cache; print(facts_cache.get('/repo'))"
