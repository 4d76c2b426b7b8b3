#!/bin/bash
# runu.sh Cxx idx [budget]: runs one proof unit and prints the outcome
cd "$(dirname "$0")"
timeout $(( ${3:-240} + 60 )) python3-vt check.py --unit $1 $2 /tmp/u.$1.$2.json ${3:-240} -v > /tmp/u.$1.$2.log 2>&1
[ -n "$4" ] && tail -$4 /tmp/u.$1.$2.log
python3 -c "
import json,sys;d=json.load(open('/tmp/u.$1.$2.json'));print('##',d['unit'],'|',d['status'],d['detail'][-1500:],'paths',d['paths'],'rounds',d['rounds'],'loops',d['loops'],'wall',d['wall_s'],'solver',d['solver_s'],'exits',d['exits'],d['exc_exits'])
for o in d['obligations']: print('  ',o['label'],o['discharged'],o['paths'],(str(o['info'])[:1800] if o['discharged']<o['paths'] else ''))"
