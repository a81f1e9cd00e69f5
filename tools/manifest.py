"""writes MANIFEST.json from properties.jsonl and the lists below"""
import json
CLAIMED = ['C01','C02','C03','C04','C05','C06','C07','C08','C09','C10','C11','C12','C13','C14','C15','C16','C17','C18','C19','C20','C21','C22','C23']
NA = {}
T = 'stateless model checking of the implementation: exhaustive enumeration of %s under a controlled scheduler, virtual clock and simulated network'
WHAT = {
 'C01':'interleavings (bounded preemptions) and single faults',
 'C02':'interleavings (bounded preemptions), pipeline shapes and faults',
 'C03':'interleavings, faults at every network operation and replies withheld',
 'C04':'faults at every network operation and every cut of a reply, with interleavings',
 'C05':'fault sequences at every network operation, with interleavings',
 'C06':'interleavings of Close with users, faults and timers',
 'C07':'pipeline shapes, failure histories and interleavings against withheld replies',
 'C08':'pipeline shapes, flush instants and interleavings',
 'C09':'requests (option combinations, key and value shapes, batch positions)',
 'C10':'replies and all fragmentations at byte level up to a depth',
 'C11':'malformed reply streams up to a depth, with interleavings',
 'C12':'keys (all 1- and 2-byte keys, all lengths, every byte at every position class)',
 'C13':'operation sequences on pipelines up to a depth',
 'C14':'operation histories on value buffers under an aggressively recycling pool, and interleavings',
 'C15':'traffic patterns per health-check period, peer deaths and interleavings at the tick',
 'C16':'interleavings of pipeline creation and operation sequences',
 'C17':'interleavings (bounded preemptions), each execution under a happens-before race detector',
 'C18':'option combinations and stalls of every network operation',
 'C19':'handshake replies (all cuts, corruptions, errors) and credential shapes',
 'C20':'statistics replies (numbers, sequences, cuts, corruptions)',
 'C21':'sequences of statistics calls with malformed and error replies',
 'C23':'thread interleavings up to a preemption bound, bursts and command sizes',
 'C22':'multisets of repeated events (commands, failures, reconnections, clients) up to a size',
}
NOTE = ('Every execution of the closed scenarios within the stated bounds is run on the real code (mechanically rewritten so that goroutines, locks, atomics, '
 'channels, timers and pools go through a controlled runtime) and judged by an oracle; bounds, executions and states are in the evidence file. '
 'Trusted: the rewriter and runtime, the server model and oracles; sequential consistency.')
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
checks=[];na=[]
for p in props:
    i=p['id']
    if i in CLAIMED:
        checks.append({'property':i,'quick_cmd':f'bash check.sh {i} quick','thorough_cmd':f'bash check.sh {i} thorough',
          'evidence_file':f'evidence/{i}.json','technique':T%WHAT[i],'level':'model_checking','level_note':NOTE})
    else:
        na.append({'property':i,'reason':NA.get(i,'check not finished yet')})
json.dump({'version':1,'setup_cmd':'bash setup.sh','hooks':{'guard':'none','enable':'no hooks: the checks rewrite a copy of /repo\'s working tree','source_commits':[]},
 'checks':checks,'not_applicable':na}, open('/verif/MANIFEST.json','w'), indent=1)
