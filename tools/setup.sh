#!/bin/bash
# builds the MIR dumping driver and warms the dumps (each check also does this by itself)
cd "$(dirname "$0")/.." && python3 -B -c "
from vf import build
build.driver()
print(*[build.dump(w)[0] for w in ('elusiv', 'warden', 'elusiv_mainnet', 'warden_mainnet')])"
