#!/bin/bash
# mut.sh "<sed expr>" file check...   : runs checks against a mutated copy
d=$(mktemp -d /tmp/mutXXXX); cp -a /repo/. $d/; sed -i "$1" $d/v0100/$2; diff -u /repo/v0100/$2 $d/v0100/$2 | grep '^[-+]' | head -6; shift 2
for c in "$@"; do VERIF_REPO=$d timeout 900 python3 /verif/check.py $c quick 2>&1 | cut -c1-300 | tail -4; done
rm -rf $d
