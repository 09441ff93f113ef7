#!/bin/bash
# builds the extractor and type-checks the bounded harness; every check also does this by itself
set -e
cd "$(dirname "$0")"
(cd extract && cargo build --offline -q)
