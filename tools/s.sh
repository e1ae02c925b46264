#!/bin/bash
# run the simulator with the current build: tools/s.sh --mode one ...
read -r S L < <(cd "$(dirname "$0")" && python3 -c "import build;s,l=build.build();print(s,l)") || exit 2
exec "$S" --libs "$L" "$@"
