#!/bin/bash
# run one check verbosely
cd /verif && VERIF_VERBOSE=1 timeout 900 python3-vt check.py "$@" 2>&1 | cut -c1-400 | tail -${T:-60}
