#!/bin/bash
# Builds the framework from the committed files, offline.
cd "$(dirname "$0")" || exit 1
python3 - <<'P'
import sys; sys.path.insert(0, 'tools/check')
import check as c, concurrent.futures as cf
with cf.ThreadPoolExecutor(8) as ex:
    js = [ex.submit(c.build_hllx), ex.submit(c.build_leaf)] + [ex.submit(c.build_finder, k) for k in c.CONFIGS]
    [j.result() for j in js]
P
