#!/bin/bash
# tools/fixed.sh PROPERTY COMMIT what failed
p=$1; h=$2; shift 2; echo "fixed: property=$p $h $*" >> /verif/known_findings.jsonl
