#!/bin/bash
# Builds the harness once, so that the checks only rebuild what changed.
cd "$(dirname "$0")" || exit 2
(cd harness && cargo build --release --offline)
