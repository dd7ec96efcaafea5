#!/bin/bash
# every rule on the current tree, with its self-examples enforced
cd "$(dirname "$0")/.."
rc=0
ls rules/c*.py | sed 's/.*\/c/C/;s/\.py//' | xargs -P 6 -I{} sh -c 'python3 check.py {} --strict > /tmp/selftest.{}.out 2>&1; echo "{} rc=$? $(head -1 /tmp/selftest.{}.out)"'
