#!/bin/bash
# builds the driver and the dependency cache under /verif/.work
cd "$(dirname "$0")" && exec python3 -c "
import sys; sys.dont_write_bytecode=True
from mrk import build
build.facts('all@release'); build.facts('all'); print('facts ok')
"
