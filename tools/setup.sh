#!/bin/bash
# builds the engine, the replay driver and (to warm the dependency cache) one harness
cd "$(dirname "$0")/.." && exec python3 check.py --setup
