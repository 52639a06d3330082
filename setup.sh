#!/bin/bash
# generates the protobuf modules from /repo's current .proto files and checks the toolchain
cd "$(dirname "$0")" && mkdir -p build evidence && exec /opt/veriftools/pyvenv/bin/python3 -B -c "
import sys; sys.path.insert(0, '.')
from symx import world
print(world.gen_pb())
import z3; print(z3.get_version_string())"
