#!/bin/bash
# Builds the simulator from the committed files and /repo's working tree.
cd "$(dirname "$0")" || exit 2
bash check.sh --build-only
