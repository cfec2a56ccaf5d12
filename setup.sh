#!/bin/bash
# Builds the framework from the committed files (offline).
cd "$(dirname "$0")" || exit 2
. ./env.sh
cd mc && go build -o /dev/null ./cmd/mc && go build -o /dev/null ./cmd/instr
