#!/bin/bash
. "$(dirname "$0")/lib/build.sh"
NEED_CPP=1
build_all
