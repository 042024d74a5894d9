#!/bin/sh
# Compiles the decision procedures (each check does so too if need be).
cd "$(dirname "$0")" && exec /opt/venv/bin/python -c 'import sys; sys.path.insert(0, "engine"); import rrv'
