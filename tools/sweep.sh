#!/bin/bash
# usage: sweep.sh "<ids>" "<seeds>" [tier]   prints one line per run
for id in $1; do for s in $2; do
  o=$(VERIF_SEED=$s /verif/run.sh $id ${3:-quick} 2>/dev/null); r=$?
  echo "$id seed=$s rc=$r $(echo "$o" | grep -v '^KNOWN' | head -${4:-1} | cut -c1-${5:-200})"
  [ $r -ne 0 ] && echo "$o" | grep -a "VIOLATION\|HARNESS\|INCONCL\|Error" | head -5 | cut -c1-900
done; done
