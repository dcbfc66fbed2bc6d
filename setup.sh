#!/bin/bash
# Builds phasar's libraries and every harness into /verif/build.
cd "$(dirname "$0")" && exec python3 harness/build.py all
