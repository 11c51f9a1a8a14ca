#!/bin/bash
# tools/finding.sh PID "what failed": records the last /repo commit as the repair of a finding
echo "fixed: property=$1 $(git -C /repo rev-parse --short HEAD) $2" >> /verif/KNOWN_FINDINGS.txt
