#!/usr/bin/env python3
"""builds the analysers"""
import os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'engine'))
import vlib
print(vlib.irdump())
print(vlib.modarith())
if os.path.exists(os.path.join(V, 'astfacts', 'astfacts.cpp')):
    print(vlib.astfacts())
