#!/bin/bash
# Builds every variant of the harness once, from committed files only.
exec "$(dirname "$0")/check.sh" build
