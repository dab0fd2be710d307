#!/bin/bash
# Runs every check: tools/all.sh [quick|thorough]
cd /verif
for i in $(seq -w 1 20); do
  t=$(date +%s); python3 check.py C$i ${1:-quick} > scratch/all.log 2>&1; rc=$?
  echo "C$i rc=$rc $(( $(date +%s) - t ))s $(head -1 scratch/all.log | cut -c1-150)"; [ $rc = 0 ] || tail -12 scratch/all.log | cut -c1-500
done
