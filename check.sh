#!/bin/bash
# check.sh PROPERTY: decides one property on /repo's current working tree.
exec python3 "$(dirname "$0")/tools/check.py" "$@"
