#!/usr/bin/env python3
"""Builds the symbolic executor (each check also does, if needed) and tests its simplifier."""
import os, subprocess, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
e = dict(os.environ, RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_TARGET_DIR=H + "/build/engine")
r = subprocess.call(["cargo", "build", "--release", "--offline", "--manifest-path", H + "/engine/Cargo.toml"], env=e)
sys.exit(r or subprocess.call([H + "/build/engine/release/engine", "--selftest", "20000"]))
