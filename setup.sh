#!/bin/sh
# Nothing to install: builds c3c once into the cache so that the checks find it (they rebuild it when /repo changes).
cd "$(dirname "$0")" && exec python3 -c '
import sys; sys.dont_write_bytecode = True
from vf import core
c = core.Ctx("C00", "other"); print(c.build_c3c())'
