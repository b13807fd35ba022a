#!/bin/bash
# Builds the harness once, offline, from the committed files.
exec "$(dirname "$0")/run.sh" --build
