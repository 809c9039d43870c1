#!/bin/bash
# nothing to prepare: every check builds what it needs; verify the toolchain is there
cd "$(dirname "$0")" && . ./env.sh && cargo --version && python3 --version
