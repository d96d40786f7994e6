#!/bin/bash
# Warms the build of the harnesses; every check rebuilds what it needs by itself.
cd "$(dirname "$0")" && python3 -c "
import sys; sys.path.insert(0,'lib')
import props; props.build_all()"
