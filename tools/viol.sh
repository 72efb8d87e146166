#!/bin/bash
# violations a check reported last
for f in /verif/out/$1/replay-*.json; do [ -f $f ] && python3 -c "
import json,sys
d=json.load(open('$f')); print(d['fn'], '|', d['msg'], d['choices'], d['stack'][:600], d['native_output'][:300])"; done
