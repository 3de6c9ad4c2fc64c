#!/bin/bash
# Builds the verifier and the rewriter, and warms the build cache.
cd "$(dirname "$0")" && exec python3 check.py --build
