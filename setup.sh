#!/bin/bash
# Builds the checker.
here=$(cd "$(dirname "$0")" && pwd)
. "$here/env.sh"
mkdir -p "$here/bin"
cd "$here/checker" && go build -o "$here/bin/vc" .
