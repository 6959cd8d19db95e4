#!/usr/bin/env python3
"""Checks the toolchain and warms the object cache of the monitors (checks also work from a cold cache)."""
import os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vbuild, checks
rc, out = vbuild.run(['g++', '--version'])
if rc:
    sys.exit('no g++')
vbuild._pch('asan')
print('ready:', len(checks.PROPS), 'properties')
