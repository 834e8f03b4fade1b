#!/bin/bash
# compact self-test output: failures with their violation lines only
VC=${VC:-/verif/bin/verifcheck} python3 /verif/selftest/run.py "$@" 2>&1 | grep -v '^ok' | grep -E '^FAIL|^[0-9]+ edits|\[[a-z-]+\]|panic|goroutine' | cut -c1-260 | head -${ST:-60}
