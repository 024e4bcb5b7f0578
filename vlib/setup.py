#!/usr/bin/env python3
"""builds the engine and warms the cache of compiled sources"""
import os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import build, spec
build.build_engine()
try:
    for h, v in sorted(set((e.harness, "plain" if e.preempt is None else "sched") for c in spec.CHECKS.values() for e in c["entries"])):
        build.module(h)
        build.native(h, v)
except build.BuildError as e:
    print(e)
