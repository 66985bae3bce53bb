#!/usr/bin/env python3
"""Finds a shortest kill or fault position for each known finding and writes probes/*.json (run once, by hand)."""
import json, subprocess, sys, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
bin = os.environ.get('KSIM', root + '/sim/target/debug/klavier-sim')
def key(k, inst=0): return (inst, {'SetKey': {'k': k}})
def kill(after, inst=0): return (inst, {'ArmKill': dict(after=after, disk_only=True, mode='Kill', tear=False)})
def undo(n): return (0, {'Undo': {'n': n}})
def redo(n): return (0, {'Redo': {'n': n}})
def reopen(): return (0, {'Reopen': dict(limit=None, walk=False)})
def fault(after, cl=2): return (0, {'Fault': dict(**{'class': cl}, code=0, after=after, span=1)})
SETTLE, POLL, SLOW = (0, 'Settle'), (0, 'Poll'), (0, {'Sched': {'client': 0, 'saver': 0}})
T = [
 ('KF1-kill-while-creating', 'C05', lambda n: dict(insts=2, open_windows=True, steps=[kill(n), key(2, 1)]),
  'a kill while a new project file is being created leaves a file that never opens again'),
 ('KF2-kill-while-trimming', 'C05', lambda n: dict(limit=2, open_windows=True, steps=[key(1), key(2), SETTLE, POLL, kill(n), key(3), SETTLE]),
  'a kill between the deletion of the steps beyond the undo limit and the saving of the image replacing them leaves a project that does not open'),
 ('KF3-kill-while-branching', 'C05', lambda n: dict(limit=2, open_windows=True, steps=[key(1), key(2), key(3), key(4), key(5), SETTLE, POLL, undo(1), kill(n), key(4), SETTLE]),
  'a kill while an edit made after an undo is being saved (old steps and images are deleted first) leaves a project that is refused or is not the confirmed one'),
 ('KF4-redo-not-offered', 'C03', lambda n: dict(limit=100, strict=['redo'], steps=[key(1), undo(1)]),
  'redo is not offered after undoing an edit when saved() has not been called between the edit and the undo'),
 ('KF5-redo-fails', 'C03', lambda n: dict(limit=100, strict=['redo'], steps=[key(1), key(2), reopen(), undo(2), key(3), redo(1)]),
  'redo stays offered after an edit made after undoing in a reopened project; redo() then panics'),
 ('KF6-never-confirmed', 'C16', lambda n: dict(limit=100, strict=['saved'], steps=[key(1), SETTLE, POLL, undo(1), POLL]),
  'saved() stays false after an undo (and in a project just opened) although everything is written'),
 ('KF7-confirmed-early', 'C16', lambda n: dict(limit=100, strict=['saved'], steps=[key(1), key(2), undo(2), (0, {'Stall': {'us': 10000000}}), key(4), key(5), POLL]),
  'saved() is true right after an edit made after an undo, before the edit is written'),
 ('KF8-error-while-branching', 'C06', lambda n: dict(limit=2, open_windows=True, steps=[key(1), key(2), key(3), key(4), SETTLE, POLL, undo(2), fault(n), key(4), SETTLE]),
  'a disk error while the undone steps are being deleted for an edit made after an undo: the project opened afterwards is older than the last confirmed step'),
 ('KF9-undo-after-error', 'C07', lambda n: dict(limit=3, strict=['errors'], steps=[key(1), key(2), SETTLE, POLL, fault(n), key(3), key(4), key(5), key(6), (0, {'Reopen': dict(limit=None, walk=True)})]),
  'when editing goes on after a reported save error, the failed step is missing in the file; undo in the reopened project panics there'),
]
for name, prop, f, what in T:
    best = None
    for n in range(0, 400):
        p = dict(seed=6, profile='crash', insts=1, limit=10, nested=[], open_windows=False, strict=[])
        p.update(f(n))
        p['steps'] = [dict(uid=k + 1, inst=i, op=op) for k, (i, op) in enumerate(p['steps'])]
        json.dump(p, open('/tmp/probe.json', 'w'))
        o = subprocess.run([bin, 'one', 'plan', '/tmp/probe.json', 'viols'], capture_output=True, text=True).stdout
        v = [json.loads(l[5:]) for l in o.splitlines() if l.startswith('VIOL ')]
        v = [x for x in v if prop in x['props']]
        if v: best = (n, p, v); break
    if not best: print(name, 'NOT FOUND'); continue
    n, p, v = best
    print(name, n, [(x['class'], x['text'][:110]) for x in v])
    json.dump(dict(id=name, property=prop, what=what, **{'class': sorted({x['class'] for x in v})}, plan=p), open(f'{root}/probes/{name}.json', 'w'), indent=1)
os.remove('/tmp/probe.json')
