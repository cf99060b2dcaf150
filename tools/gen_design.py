#!/usr/bin/env python3
# Writes DESIGN.md: hand-written head and tail (tools/design), the per-property part from the checks' own text, the tables
# of repairs and of planted bugs from known_findings.txt, seeded/ and tools/design/caught.txt (output of caught.sh).
import re,glob,json,os
os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)),'..'))
WHY={
'E01':'A unit test samples a handful of updates of one model; a wrong term (a transposed factor, an ordering error, a data-dependent branch) can vanish for the models sampled. Over a field with 2^31-1 elements a wrong term survives one comparison with probability about 2^-31.',
'E02':'Needs a crash at an arbitrary arithmetic operation and a twin to compare with.',
'E03':'Needs fault sequences, a reading-independent twin, and a recovery bound that each model itself implies.',
'E04':'Rounding in feedback accumulates over a history; tests compare single operations.',
'E05':'Needs preemption inside an update.',
'E06':'Nothing in the test suite runs on the target.',
'E07':'Cost is not observed by any test; hostile values and long histories are what makes it grow; nothing in the test suite runs on the target.',
'F01':'Any history; exact comparison.','F02':'NaN and overflow leave states no test starts from.','F03':'Sequences of reconfigurations at every size and capacity, with running state.',
'F04':'Designs over the whole parameter space against an independently derived filter, judged by what they do to signals.','F05':'Any moment of any history.','E08':'Programs with aliasing and preemption inside operations, exact arithmetic, every register compared after every step.','E09':'All formats, both compilers and the target itself, exact integer oracle, handlers computing at any instruction.','F06':'Reports compared with running filters, under faults, over the whole coefficient space.',
'M01':'The interrupt must strike between two particular instructions.','M02':'Same, and every register shape and content.','M03':'Every combination; intermediate stores are only visible to hardware.',
'M04':'The event must arrive around the clearing store.','M05':'Needs a bus that refuses, arbitrates, stretches.','M06':'A conversion must complete between two byte reads.',
'M07':'Whole firmware, long runs, resets.','M08':'Histories of settings over shared registers against the data sheet.','M09':'Power must fail at a particular instruction; the four-cycle window must be met.',
'M10':'Flags must be live when the handler strikes.','M11':'The shared latch must be overwritten between two stores.',
'M12':'Whole application: the guarantees of all parts have to hold together, at every placement of resets and interrupts.',
'M13':'The programs are compiled by the build and never executed.'}
props={p['id']:p for p in map(json.loads,open('properties.jsonl'))}
o=open('tools/design/head.md').read()
for f in sorted(glob.glob('host/[efm][01]*.cpp')):
    id=f[5:8].upper(); s=open(f).read()
    rule=re.search(r'ck\.rule = "(.*?)";',s,re.S).group(1)
    ass=re.findall(r'"((?:[^"\\]|\\.)*)"',re.search(r'ck\.assumptions = \{(.*?)\};',s,re.S).group(1))
    sc=re.findall(r'\{ "([a-z0-9_]+)", (\d+), (\d+),',s)
    o+=f"### {id} {props[id]['title']}\n\n{rule}\n\n* Why simulation reaches it: {WHY[id]}\n* Domain and trust: "+'; '.join(ass)+".\n* Scenarios (quick / thorough runs): "+', '.join(f"{a} {int(b):,} / {int(c):,}" for a,b,c in sc)+".\n\n"
fixed='\n'.join('* '+re.sub(r'^fixed: property=(\S+) (\S+) (.*)',r'\1 `\2` \3',l.strip()) for l in open('known_findings.txt') if l.startswith('fixed:'))
caught={}
for l in open('tools/design/caught.txt'):
    w=l.split(None,3); caught[w[0]]=w[2]+' '+(w[3].strip() if len(w)>3 else '')
m='| planted bug | check and class that reports it | what it breaks | what it needs |\n|---|---|---|---|\n'
for d in sorted(glob.glob('seeded/*/')):
    i=d.split('/')[1]; j=json.load(open(d+'meta.json')); m+=f"| {i} | {j['property']}: {caught.get(i,'?').replace('CAUGHT class: ','')} | {j['what_it_breaks']} | {j['needs']} |\n"
open('DESIGN.md','w').write(o+open('tools/design/tail.md').read().replace('FIXED',fixed).replace('MATRIX\n',m))
