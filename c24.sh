#!/bin/bash
# c24.sh: declarations that the rules refuse or allow, each expanded by the real derive macros (called by run.sh)
exec python3 tools/refuse.py
