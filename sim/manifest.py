import json
T='deterministic simulation with fault injection: seeded search over %s in a simulated world running the real library, checked against a reference interpreter'
W={
'C01':'task interleavings (preemption at every memory access, callback, allocation) with happens-before race analysis',
'C02':'delivery histories of documents (cut, lost, duplicated, reordered, corrupted, retried)',
'C03':'cut points, placements at unmapped pages and hostile neighbouring memory, every access checked',
'C04':'failing allocations (every n, runs of n), retries and concurrency, all memory and values tracked',
'C05':'exceptions from callbacks, value operations and comparisons, retries and concurrency, all values tracked',
'C06':'deliveries and faults, recorded history of user-function calls compared',
'C07':'deliveries with armed allocation and callback faults around lookahead',
'C08':'deliveries over nullable repetitions, progress bounded in simulated steps',
'C09':'deliveries, copies, moves and faults, every value tracked from birth to destruction',
'C10':'failures provoked everywhere in documents, effects of abandoned attempts checked',
'C11':'parses injected into user functions (any parser, input, depth, fault) and recursive grammars',
'C12':'long histories of calls over reused, rewritten and relocated buffers with kept results and faults',
'C13':'deliveries cut and corrupted anywhere, focused on repetitions',
'C14':'deliveries cut and corrupted anywhere, focused on choices, with throwing alternatives',
'C15':'deliveries cut and corrupted anywhere, focused on join',
'C21':'deliveries cut, corrupted and retried, to parsers written with operators that get simplified, judged by the reference interpreter of the unsimplified expression',
'C22':'deliveries and faults, to the same chain of modifiers written in different associations and forms',
'C23':'deliveries and faults, to parsers made by substitution, judged by the reference interpreter of the substituted grammar',
}
N={'C20':'Evaluation in a constant expression happens inside the compiler: there is no process, memory, scheduler or I/O at run time that a simulator could control or inject faults into.',
'C24':'Rejection happens in the compiler: nothing executes that a simulator could schedule or fail.'}
m={'version':1,'setup_cmd':'g++ --version >/dev/null && python3 sim/pools.py C02 1 quick build/selftest && rm -rf /verif/build/selftest',
'checks':[{'property':p,'quick_cmd':'python3 sim/check.py %s --tier quick'%p,'thorough_cmd':'python3 sim/check.py %s --tier thorough'%p,'technique':T%w,'level':'exploration',
 'level_note':'Seeded search: hundreds of thousands of simulated runs of the real library (quick), tens of millions (thorough), over curated and random grammars; every reported violation repeated in fresh processes, minimised and replayable. Samples, does not enumerate. Trusts the reference interpreter (sim/model.cpp), the instrumentation of g++ and sequential consistency within a run.'} for p,w in W.items()],
'not_applicable':[{'property':p,'reason':r} for p,r in N.items()],
'notes':'No hooks in /repo: the seams are operator new, the instrumentation the compiler emits, the input range, user functions and value types.'}
json.dump(m,open(__import__('os').path.join(__import__('os').path.dirname(__import__('os').path.dirname(__import__('os').path.abspath(__file__))),'MANIFEST.json'),'w'),indent=1)
