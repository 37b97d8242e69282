#!/bin/bash
# warms the Go build cache with the simulated standard library; the checks build again from /repo
set -e
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
bash "$(dirname "$0")/build.sh" "$d/build"
