#!/bin/bash
# builds the drivers once, so that the checks only rebuild what changed
cd "$(dirname "$0")" || exit 3
bash build.sh all
