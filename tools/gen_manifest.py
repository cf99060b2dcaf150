#!/usr/bin/env python3
# Writes MANIFEST.json from the table of claimed checks; properties without a check are listed as not applicable.
import json,os
here=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..')
HOST='deterministic simulation: seeded fault/schedule search over the real templates, exact prime-field and extended-precision reference models'
AVR='deterministic simulation: cycle-counted ATmega328P simulator running avr-g++ built firmware, seeded interrupt/hardware/fault schedules'
CLAIMED=json.load(open(os.path.join(here,'tools','claimed.json')))
NA={
 'N05':'Pure iteration helpers without state shared over time, I/O or concurrency.',
 'N06':'Compile-time and pure helper functions; the parts that matter over time on the target are reached by E06.',
 'N07':'Formatting of one value to a stream supplied by the caller; pure, and the text layout is not a fault-dependent behaviour.',
}
props=[json.loads(l) for l in open(os.path.join(here,'properties.jsonl'))]
checks=[];na=[]
for p in props:
    i=p['id']
    if i in CLAIMED:
        c=CLAIMED[i]
        checks.append(dict(property=i,quick_cmd=f'bash check.sh {i} quick',thorough_cmd=f'bash check.sh {i} thorough',
            technique=AVR if c['kind']=='avr' else HOST,level='exploration',level_note=c['note']))
    else:
        na.append(dict(property=i,reason=NA.get(i,'No check yet.')))
json.dump(dict(version=1,setup_cmd='bash setup.sh',checks=checks,
  hooks=dict(guard='none',enable='No hooks were needed: the number-type template parameter, the register addresses and the project\'s own AVR build are the seams.',source_commits=[]),
  not_applicable=na,notes='Seeds: VERIF_SEED. Replay a violation: bash replay.sh FILE. Known findings and repaired defects: known_findings.txt.'),
  open(os.path.join(here,'MANIFEST.json'),'w'),indent=1)
