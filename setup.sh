#!/bin/bash
# nothing to build ahead of time: every check extracts, builds and verifies from /repo itself
cd "$(dirname "$0")" && python3-vt -c "import z3; print('z3', z3.get_version_string())" && which clang++-18 cvc5 cmake ninja >/dev/null && echo ready
