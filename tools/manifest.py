import json,subprocess
P={x['id']:x for x in map(json.loads,open('/verif/properties.jsonl'))}
note={
'C01':'Model set and brute-force nearest neighbour, over seeded delivery histories with loss, duplication, reordering and delay.',
'C02':'Crash at every kind of point inside every tree operation, model set before/after, retry; seeded.',
'C03':'Seeded interleavings of a writer and readers at points inside calls; answers compared with the set at publication.',
'C04':'Exact voxel model; permutations, duplicates, hash seeds, crashes, both builds.',
'C05':'Exact integer hull as oracle; orders, merges, hash seeds, crashes; arbitrary floats only within rounding.',
'C06':'Exact boundary as oracle; termination by step budget; orders, merges, hash seeds, crashes.',
'C07':'Bit-for-bit against one undisturbed icp() in a pristine process; crashes and restarts from checkpoints.',
'C08':'Independent closed-form optimum in f64 per step, within stated rounding allowances; lost/stale targets, crashes.',
'C09':'Model multiset after an unwind at any comparison; order after retry; NaN refusal.',
'C10':'Differential against solo execution in a pristine process, over seeded interleavings and histories of the whole interface.',
'C11':'Differential against the unobserved solo execution, under changing levels, re-entrant and dying observers.',
'C12':'Differential against pristine processes with other entropy and time, plus count and range.',
'C13':'Differential between damaged, undamaged and repaired data, with crashes and preemption.',
'C19':'Ledger of live library allocations over repeated and dying calls; growth that doubles with the repetitions is a leak.',
'C20':'Differential between the two builds under crashes, preemption, entropy and clock changes; trigonometry and registration within rounding.',
}
na={
'C14':'A pure function of polygon and point: no schedule, fault, clock or history takes part. Run inside C10, C11 and C13 for agreement between executions only.',
'C15':'A pure function of two points; nothing for a simulator to decide. Run inside C10 and C11 for agreement only.',
'C16':'Closed formulas of two coordinates; nothing for a simulator to decide. Run inside C10 and C11 for agreement only.',
'C17':'Pure folds over one slice; nothing for a simulator to decide. Run inside C10, C11 and C13 for agreement only.',
'C18':'Equality of pure wrappers with what they wrap; no schedule, fault or history takes part. The hull and ICP wrappers are drawn at random inside C05-C07.',
}
m=dict(version=1,setup_cmd='./check.sh build',
 checks=[dict(property=i,quick_cmd=f'./check.sh {i} quick',thorough_cmd=f'./check.sh {i} thorough',
   technique='deterministic simulation with fault injection, seeded search over schedules and faults',
   level='exploration',level_note=note[i]+' Sampling: a clean batch is evidence, not proof. Assumes crashes and preemption happen at the simulated points.') for i in sorted(note)],
 not_applicable=[dict(property=i,reason=r) for i,r in na.items()],
 notes='No hooks in /repo: the seams (scalar type, tracing, log, allocator, entropy, clock, closures) exist in the shipped code. The fix: commits are listed in known-findings.txt.')
assert set(note)|set(na)==set(P)
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
import jsonschema
jsonschema.validate(m,json.load(open('/root/.vp/MANIFEST.schema.json')))
