#!/bin/sh
# tools/fixed.sh PROP "what failed": records /repo's HEAD commit as a fix
h=$(git -C /repo rev-parse --short HEAD)
echo "fixed: property=$1 $h $2" >> /verif/known_findings.txt
