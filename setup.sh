#!/bin/bash
# builds the driver and checks that the dump can be made
cd "$(dirname "$0")" || exit 2
exec python3 analysis/extract.py
