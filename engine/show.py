#!/usr/bin/env python3
"""show.py DUMP REGEX: print the normalised functions whose demangled name matches."""
import json,sys,re
rx=re.compile(sys.argv[2])
for line in open(sys.argv[1]):
    if '"kind":"func"' not in line[:200] and '"kind":"func"' not in line: continue
    d=json.loads(line)
    if d.get('kind')!='func' or not rx.search(d['dem']): continue
    print('=====',d['dem'],d.get('file'),d.get('line'),d.get('cls'),d.get('ditypes'),[a for a in d['args']])
    for bi,b in enumerate(d['b']):
        print(' b%d:'%bi)
        for i in b:
            o=dict(i); l=o.pop('l',None)
            s='   %s = %s'%(o.pop('i'),o.pop('op'))
            if 'dem' in o: s+=' '+o.pop('dem')[:140]; o.pop('callee',None)
            s+=' '+' '.join(o.pop('o',[]))
            t=o.pop('t',None)
            s+='  '+json.dumps(o) if o else ''
            if l: s+='   ;%s:%s'%(l[0].split('/')[-1],l[1])
            print(s)
