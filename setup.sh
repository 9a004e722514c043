#!/bin/bash
# Nothing to build: sanity-check the interpreter, the library under test and Hypothesis.
here="$(cd "$(dirname "$0")" && pwd)"
export TZ=UTC PYTHONDONTWRITEBYTECODE=1
mkdir -p "$here/evidence" "$here/replays"
cd "$here" && exec /opt/venv/bin/python -c "
import vpf.boot, hypothesis, rocketry, redbird
print('hypothesis', hypothesis.__version__, '- rocketry from', rocketry.__file__)"
