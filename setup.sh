#!/bin/bash
# Builds the symbolic executor ahead of the checks (each check also builds it on demand).
cd "$(dirname "$0")"
python3 -c "import check; print(check.build_engine())"
