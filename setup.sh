#!/bin/bash
# Nothing has to be installed; confirm that the tools the checks use are there.
set -e
python3-vt -c 'import z3; print("z3", z3.get_version_string())'
cargo +nightly --version
cargo --version
