#!/usr/bin/env python3
"""Checks that the tools the checks rely on are there."""
import os
import subprocess
import sys

for path in ("/opt/veriftools/tla/tla2tools.jar", "/opt/veriftools/tla/CommunityModules-deps.jar",
             "/opt/venv/bin/python"):
    if not os.path.exists(path):
        sys.exit(f"missing {path}")
subprocess.run(["java", "-version"], check=True, capture_output=True)
os.makedirs(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "evidence"),
            exist_ok=True)
