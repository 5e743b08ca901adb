#!/bin/bash
# Builds the symbolic execution engine (offline).
cd "$(dirname "$0")" && exec bash tools/build_engine.sh
