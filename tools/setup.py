#!/usr/bin/env python3
"""Warms up the derived artefacts (protoc output, generated interface).  The
checks rebuild whatever is missing or stale, so this is only a time saver."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vbuild
print(vbuild.proto_gen())
print(vbuild.interface_gen())
