#!/bin/bash
# Builds the harness (plain and race instrumented) once, so that the checks find a warm build cache.
set -u
cd "$(dirname "$0")" || exit 1
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
mkdir -p .build
cd harness || exit 1
go build -o ../.build/harness . || exit 1
go build -race -o ../.build/harness-race . || exit 1
