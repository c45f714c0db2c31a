#!/bin/sh
# check.sh ID [quick|thorough]: runs the check of one property against /repo's working tree.
cd "$(dirname "$0")" && exec /usr/bin/python3 -B vf/run.py "$@"
