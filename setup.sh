#!/bin/bash
# Builds what the checks reuse: dependencies, the monitors, sysroots.
set -e
cd "$(dirname "$0")"
export PATH=/root/.cargo/bin:$PATH CARGO_NET_OFFLINE=true
mkdir -p work evidence
python3 prebuild.py
