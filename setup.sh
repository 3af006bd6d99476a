#!/bin/bash
# Builds the checker (offline; the Go build cache makes a second run instant).
cd "$(dirname "$0")" || exit 1
. ./env.sh
mkdir -p bin
cd checker && go build -o ../bin/gtv ./cmd/gtv
