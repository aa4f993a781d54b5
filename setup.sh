#!/bin/bash
# Builds the harness once (offline).
cd "$(dirname "$0")" || exit 2
exec cargo build --offline --locked --quiet --manifest-path harness/Cargo.toml
