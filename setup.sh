#!/bin/bash
# Builds the facts driver and the facts of the current tree (checks redo this themselves when needed).
cd "$(dirname "$0")" && exec python3 -m analysis.facts
