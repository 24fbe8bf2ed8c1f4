#!/bin/bash
# usage: check.sh <property id> [quick|thorough]
cd "$(dirname "$0")" && exec python3 -m analysis.main "$@"
