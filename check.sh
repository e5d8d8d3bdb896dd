#!/bin/bash
# check.sh ID [quick|thorough] : one registered check
cd "$(dirname "$0")" && exec python3-vt run.py "$1" --tier "${2:-quick}"
