#!/bin/sh
# builds the MIR driver and the analysis results of the current tree into .cache (git-ignored)
cd "$(dirname "$0")" && exec python3 analysis/run.py setup
