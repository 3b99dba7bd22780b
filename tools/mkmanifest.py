#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
NOTE = {
 'C01': 'byte ledger of the user phrase file plus probe typing, under every fault class on the add path and a crash before any of its system calls',
 'C02': 'candidate lists and composing text compared with a reference evaluation of the files as they stand at each activation',
 'C03': 'every candidate shown must be allowed by a complete version of each file; survival under AddressSanitizer',
 'C04': 'survival, and exact recovery, under damaged files and failing open/read/write/stat/mmap/mkdir',
 'C05': 'directory tree and bytes before and after start-up, with missing levels, crashes and failures',
 'C06': 'per-client ledger of what was shown and what was delivered',
 'C07': 'full comparison with a reference conversion of the reading sequence (own best-path search)',
 'C08': 'display invariants after every event and a bounded Esc/End/Backspace drain to nothing',
 'C09': 'reference model of remembered picks under a simulated clock that jumps both ways',
 'C10': 'candidates and composing text compared with a reference evaluation including exclusions',
 'C11': 'reference civil calendar under a simulated clock and many time zones',
 'C12': 'stored settings entirely old or new after a crash or failure at any call of a save; behaviour compared with a model of the settings in force',
 'C13': 'recorded process starts compared with the reference model, damaged definitions and failing starts included',
 'C18': 'page, highlight, labels and layout of every window compared with a reference model of the window, over keys, clicks and panel paging',
 'C19': 'hint text compared with a reference model, and its promise with what Return then does to the user phrase file',
 'C20': 'delivered text compared with a reference model over histories of editing, features and settings',
 'C14': 'reference model of both modes and of associated phrases over switches, toggles and focus changes',
}
NA = {
 'C15': 'pure function of the key sequence: no schedule, clock, fault or I/O for a simulator to decide',
 'C16': 'pure function of a digit string: nothing to schedule or fail',
 'C17': 'pure function of an immutable buffer and a key (damaged or unreadable files are C04): nothing to schedule',
}
checks = [dict(property=p['id'], quick_cmd='bash sim/check.sh %s quick' % p['id'], thorough_cmd='bash sim/check.sh %s thorough' % p['id'],
    technique='deterministic simulation with fault injection: seeded search over event schedules and faults, real engine against a reference model',
    level='exploration',
    level_note='Exploration by seeded random search, no completeness claim: ' + NOTE[p['id']] + '. Runs the real fcitx5 Instance and the real engine; clock, process start, files and crashes are simulated. Trusts the reference model in sim/model.cpp, the small data set in sim/data and the installed fcitx5 5.1.7.')
  for p in props if p['id'] in NOTE]
json.dump(dict(version=1, setup_cmd='bash sim/build.sh', checks=checks,
    not_applicable=[dict(property=k, reason=v) for k, v in NA.items()],
    notes='No guarded hooks in /repo: the seams are libc/fcitx symbols interposed in the simulator (sim/env.cpp). Repairs of defects found are the fix: commits listed in known-findings.txt.'),
  open(V + '/MANIFEST.json', 'w'), indent=1, ensure_ascii=False)
