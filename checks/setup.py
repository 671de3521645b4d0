#!/usr/bin/env python3
"""nothing is kept between runs: verify that the tools are present"""
import shutil, sys
missing = [t for t in ('gcc', 'make', 'node', 'python3') if not shutil.which(t)]
print('missing: %s' % missing if missing else 'ok')
sys.exit(1 if missing else 0)
