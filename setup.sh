#!/bin/bash
# Builds the explorer, the tools and the fault-injection shim, so that checks only rebuild what changed.
cd "$(dirname "${BASH_SOURCE[0]}")" && exec bash run.sh --build
