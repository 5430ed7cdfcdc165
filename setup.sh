#!/bin/sh
# nothing to build ahead: every check compiles /repo's current tree itself
set -e
for t in cbmc goto-cc goto-instrument gcc glib-mkenums pkg-config python3; do command -v $t >/dev/null; done
pkg-config --exists glib-2.0 gobject-2.0
mkdir -p evidence
