#!/bin/bash
python3 - "$1" <<'P'
import json,sys;d=json.load(open(sys.argv[1]));print(json.dumps(d['scenario']));print(d['violation'],d['shrink_attempts'])
P
