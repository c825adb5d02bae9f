#!/bin/bash
# Warms the Go build cache (offline) by building the harness once.
cd "$(dirname "$0")" && exec python3 -c "
import sys; sys.dont_write_bytecode=True; sys.path.insert(0,'lib')
import vlib; vlib.build(); print('ok')"
