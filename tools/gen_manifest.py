#!/usr/bin/env python3
"""Source of /verif/MANIFEST.json."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 'P01': 'conservation monitor around every soil-moving phase of simulated histories',
 'P02': 'ledger monitor reconciling parcels and columns after every phase',
 'P03': 'whole-grid invariant monitor after every step',
 'P04': 'ASan, UBSan and valgrind runs of all workloads, with an allocation-balance monitor',
 'P05': 'offline geometric oracle over recorded footprints',
 'P06': 'trace monitor of step results, state digests and logged warnings',
 'P07': 'reference-model monitor on intercepted decisions',
 'P08': 'reference-model monitor on intercepted terrain avalanches',
 'P09': 'reference-model monitor on intercepted body soil avalanches',
 'P10': 'trace monitor of relaxation rounds; equilibrium reports judged by a whole-grid stability oracle',
 'P11': 'long-run monitor: convergence, stationarity and maximum principle of every round',
 'P12': 'reference-model monitor on intercepted soil transports',
 'P13': 'before/after monitor of squeezed soil with a line-walk reachability oracle',
 'P14': 'before/after monitor of cut terrain with a nearest-room oracle',
 'P15': 'change-set monitor of every pass and step against the reported areas',
 'P16': 'trace comparison between repeated, interleaved, resumed and differently initialised runs',
 'P17': 'field monitor of generated terrain and noise samples against an independent kernel',
 'P18': 'directory-snapshot monitor and parsed-file oracle around every write',
 'P19': 'verdict monitor on valid and corrupted states against an independent checker',
 'P20': 'constructor monitor on boundary-biased arguments',
 'P21': 'numerical identity monitor on random orientations, points and bodies',
 'P22': 'statistical monitor of outcome distributions over many seeds',
 'P23': 'twin-run monitor: every step compared with the same step in other units of length',
 'P24': 'twin-run monitor: every operation compared with the same operation at another place of a larger grid',
 'P25': 'twin-run monitor: every decision and operation compared with the same one on exchanged layer slots',
}
props = [json.loads(l)['id'] for l in open(ROOT + '/properties.jsonl')]
note = ('held on the executions recorded in the evidence file; random workloads, fixed by the seed; '
        'trusts the compiler and the independent reference models in harness/')
m = dict(version=1, setup_cmd='true', checks=[dict(property=p, quick_cmd=f'python3 run_check.py {p}',
         thorough_cmd=f'python3 run_check.py {p} --tier thorough', technique=T[p], level='exploration', level_note=note)
         for p in props], not_applicable=[],
         notes='No hooks in /repo: the checks build the sources as they are and interpose the functions of the shared object.')
json.dump(m, open(ROOT + '/MANIFEST.json', 'w'), indent=1)
