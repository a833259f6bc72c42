#!/usr/bin/env python3
"""Builds the tools of /verif (offline)."""
import os, sys
sys.dont_write_bytecode = True
D = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(D, "lib"))
import driver
print(driver.tool("irlift"))
print(driver.tool("ompcheck", ["-l:libclang-cpp.so.18.1"]))
