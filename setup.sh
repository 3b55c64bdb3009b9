#!/bin/bash
# Builds the harness once, so that a broken installation shows before any check runs.
here=$(cd "$(dirname "$0")" && pwd)
plain=1
. "$here/build.sh" || exit 1
"$here/target/release/harness" list | wc -l
