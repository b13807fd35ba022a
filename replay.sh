#!/bin/bash
# replay.sh <file> : runs one saved case against /repo's current working tree.
f=$(realpath "$1")
"$(dirname "$0")/run.sh" --build || exit 2
cd "$(dirname "$0")" && exec target/release/vh replay "$f" "$PWD"
