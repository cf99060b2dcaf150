#!/usr/bin/env python3
# Writes fw/combos_a.inc and fw/combos_b.inc, the combinations of deferred settings tried by check M03, from fw/settings.inc.
import re,itertools,random,os
here=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','fw')
S=[m.groups() for m in re.finditer(r'^S\( (\w+),.*?(0x[0-9a-f]+), (\d), (\d), ',open(here+'/settings.inc').read(),re.M)]
by={}
for n,a,h,l in S: by.setdefault(a,[]).append(n)
out=['// Generated by tools/gen_combos.py: combinations of deferred settings. C( shape, names... ); shape 0: left to right, 1: a, ( b, ... ), 2: ( a, b ), ( c, d ).']
r=random.Random(7)
for n,*_ in S: out.append(f'C( 0, {n} )')
for a,l in by.items():
    for p in itertools.permutations(l,2): out.append('C( 0, %s )'%', '.join(p))
    if len(l)>=3:
        ts=list(itertools.permutations(l,3))
        for p in r.sample(ts,min(4,len(ts))): out.append('C( 0, %s )'%', '.join(p))
        for p in r.sample(ts,min(2,len(ts))): out.append('C( 1, %s )'%', '.join(p))
    if len(l)>=4:
        for k in range(2): p=r.sample(l,4); out.append('C( 2, %s )'%', '.join(p))
        for k in range(2): p=r.sample(l,len(l)); out.append('C( 0, %s )'%', '.join(p))
        p=r.sample(l,len(l)); out.append('C( 1, %s )'%', '.join(p))
for k in 0,1: open(here+'/combos_%s.inc'%'ab'[k],'w').write('\n'.join([out[0]]+out[1+k::2])+'\n')
