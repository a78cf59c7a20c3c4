#!/bin/bash
# Builds the engine from the committed sources.
cd "$(dirname "$0")" || exit 1
. ./env.sh
mkdir -p bin evidence
cd gosym && go build -mod=mod -o ../bin/gosym.new . && mv ../bin/gosym.new ../bin/gosym
