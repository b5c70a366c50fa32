#!/usr/bin/env python3
"""Nothing has to be built in advance: every check builds what it needs. This just warms up the
Go build cache and makes sure that the tools are there."""
import os, subprocess, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vlib
c = vlib.Check('S00', 'quick')
try:
    c.build('wb')
    assert os.path.exists(vlib.JAR)
finally:
    c.close()
print('ok')
