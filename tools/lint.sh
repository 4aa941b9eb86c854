#!/bin/bash
# parse every specification
cd "$(dirname "$0")/../spec"
for f in ${@:-*.tla}; do tla-sany $f > /tmp/sany.$$ 2>&1; grep -qi "error\|fatal\|Unknown operator\|Could not" /tmp/sany.$$ && { echo "== $f"; grep -i -A6 "error\|unknown\|fatal\|parse" /tmp/sany.$$ | grep -v "^Parsing\|^Semantic\|^Linting" | head -12; }; done; rm -f /tmp/sany.$$
