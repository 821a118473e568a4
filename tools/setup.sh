#!/bin/bash
# parse every specification module; the checks build the rest themselves (they must follow /repo's tree)
cd "$(dirname "$0")/../spec" || exit 1
rc=0
for m in *.tla; do
  tla-sany "$m" > /tmp/sany.$$ 2>&1 || { echo "$m does not parse"; tail -5 /tmp/sany.$$; rc=1; }
done
rm -f /tmp/sany.$$
exit $rc
