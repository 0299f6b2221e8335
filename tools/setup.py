#!/usr/bin/env python3
"""
There is nothing to build; see that what the checks need is there.
"""
import subprocess
import sys
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
for path in ("/opt/venv/bin/python", "/opt/veriftools/tla/tla2tools.jar"):
    if not Path(path).exists():
        sys.exit(f"{path} is missing")
subprocess.run(["java", "-version"], check=True, stderr=subprocess.DEVNULL)
(VERIF / "evidence").mkdir(exist_ok=True)
