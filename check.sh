#!/bin/bash
# bash check.sh Cxx [quick|thorough]
cd "$(dirname "$0")" && exec python3 check.py "$@"
