#!/bin/bash
# engine and runtime models against the native run of the same program
cd "$(dirname "$0")/.." && bash setup.sh && python3 check.py --job 'self_.*' 2>&1 | grep -v '^$' | sed -E "s/'(complete|killed|insts|asserts|asserts_by_solver|queries|unknown|solver_s|max_query_s|wall_s|reach)': [^,]*, ?//g" | cut -c1-900
