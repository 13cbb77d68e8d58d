#!/bin/sh
# run all checks on a tree (default /repo), short output
cd /verif; for p in ${2:-$(python3 -c "
from sa.props import PROPS
print(*sorted(PROPS))")}; do echo $p; done | PYULOG_REPO=${1:-/repo} SA_EVIDENCE=${EV:-/verif/evidence} xargs -P8 -I{} sh -c 'python3 check.py {} > /tmp/seedwork/out.{} 2>&1; echo "{} rc=$? $(sed -n 2p /tmp/seedwork/out.{})"; grep -E "UNDECIDED|^  " /tmp/seedwork/out.{} | head -2 | cut -c1-250' 
