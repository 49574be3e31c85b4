#!/bin/bash
# build the extractor, configure the generated headers and compile the replay harnesses once (everything is rebuilt on demand by the checks)
cd "$(dirname "$0")" || exit 1
exec ./tools/prebuild.py
