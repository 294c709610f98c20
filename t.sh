#!/bin/bash
# try: run checks briefly, compact output
s=$1; shift
for p in "$@"; do timeout 800 ./check $p --seconds $s > /tmp/o.$p 2>&1; echo "== $p rc=$?"; if grep -q "error:" /tmp/o.$p; then grep -A3 "error:" /tmp/o.$p | head -${E:-16}; else tail -${L:-22} /tmp/o.$p | cut -c1-600; fi; done
