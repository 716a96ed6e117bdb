#!/usr/bin/env python3
"""Build the extractor and the replay crate (checks rebuild either if it is missing or stale)."""
import os
import verify as V
import check
os.makedirs(V.BUILD, exist_ok=True)
V.ensure_extractor()
check.build_replay()
print('ready')
