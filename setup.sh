#!/bin/bash
# Prebuilds the harness and its dependencies.
exec bash "$(dirname "$0")/build.sh"
