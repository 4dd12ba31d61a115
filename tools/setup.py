"""Builds the library objects and every driver, and parses the specifications."""
import os, sys, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path[:0] = [os.path.join(V, "lib")]
import build
for f in sorted(glob.glob(os.path.join(V, "drv", "*.c"))): print(build.driver(os.path.basename(f)[:-2]))
