#!/bin/bash
# Fills the build cache: the patched standard library and the dependencies.
here=$(cd "$(dirname "$0")" && pwd)
"$here/build.sh" || exit 1
"$here/build.sh" race || exit 1
