#!/bin/bash
# Nothing to build: verify that the interpreter, hypothesis and the working tree are usable.
cd "$(dirname "$0")" && exec /opt/venv/bin/python -c "
import lib.paths, hypothesis, hermespy.core, hermespy.modem, hermespy.simulation
print('hypothesis', hypothesis.__version__, 'hermespy from', hermespy.core.__file__)"
