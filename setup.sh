#!/bin/bash
# Compiles the harness once, so that the build cache is warm, and checks that it runs.
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d "${TMPDIR:-/tmp}/gosips-verif-XXXXXX") || exit 1
trap 'rm -rf "$d"' EXIT
bash "$here/check.sh" build fuel "$d/fuel" && "$d/fuel/harness" list
