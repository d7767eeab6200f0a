#!/bin/bash
# like subs.sh, with short compiler errors
/verif/tools/subs.sh "$@" > /tmp/s.$$ 2>&1
if grep -q "harness does not build" /tmp/s.$$; then grep -n "error:" /tmp/s.$$ | cut -c1-300 | head -12; else cut -c1-900 /tmp/s.$$; fi; rm -f /tmp/s.$$
