#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json
NOTE={
'S01':'real OS threads run one at a time under a seeded scheduler (preemption at basic-block granularity, futex waits simulated); interruption by panic inside table building',
'S02':'interleaved sessions against the same sessions alone in fresh processes',
'S03':'random session histories with interruptions; every token accounted for against a reference lexer; scripted lexer with stalls and panics',
'S04':'damaged sources through four lexicons against hand-written reference lexers',
'S05':'clean verdict, tree and derivation against an independent LL(1) reference and a recogniser',
'S06':'step budget and progress invariants while damaged sources are parsed to the end',
'S07':'trees and consumed tokens of damaged sources against the reference parser with the documented recovery',
'S08':'repair decision, position and report of every fixed token against reference FOLLOW sets',
'S09':'error lists, spans, named tokens and messages against the reference parser',
'S10':'span, text and value invariants of every node, and against the reference parser',
'S11':'marks of every token against the reference parser',
'S12':'every lookup recomputed naively over the snapshot of the log',
'S13':'verdicts and tables against an independent LL(1) computation, over registration orders, type numberings and hash seeds'}
NA={'N01':'decided by the compiler before anything runs: a macro expansion has no schedule, clock, I/O or fault for a simulator to control, so deterministic simulation cannot decide it',
'N02':'a pure derive of a data type behind an optional feature; no schedule, time, I/O or fault enters it, so simulation would only be sampling of inputs under another name'}
checks=[dict(property=k,quick_cmd=f'bash check.sh {k} quick',thorough_cmd=f'bash check.sh {k} thorough',
  technique='deterministic simulation with fault injection: seeded search over '+('thread schedules and interruptions' if k in('S01','S02') else 'session histories, damage and interruptions' if k!='S13' else 'grammars, registration orders, type numberings and hash seeds'),
  level='exploration',level_note=NOTE[k]) for k in NOTE]
json.dump(dict(version=1,setup_cmd='bash sim/build.sh',checks=checks,not_applicable=[dict(property=k,reason=v) for k,v in NA.items()]),open('MANIFEST.json','w'),indent=1)
