#!/bin/bash
# Builds every monitor from the committed files, offline.
root=$(cd "$(dirname "$0")" && pwd)
. "$root/env.sh"
stamp || exit 2
build
