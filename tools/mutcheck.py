#!/usr/bin/env python3
"""A short run of most of the machinery, all properties at once: exit 1 if anything is noticed.  For tools/mutate.py."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import common, checks, secrecy, libdrive
from checks import *


def steps(chk):
    yield lambda: random_cli(chk, 24, 30, dict(set_primary=0.6), setup='mixed', shell=0.7)
    yield lambda: random_lib(chk, 32, 60, weights(), npps=2)
    yield lambda: random_cli(chk, 16, 24, dict(list=10, add_code=6, notes=3), setup='any', past=True, usage=0.15, typos=0.4)
    yield lambda: random_cli(chk, 16, 24, tty=True, past=True, setup='mixed')
    yield lambda: random_cli(chk, 16, 24, setup='harmed', wild=0.5, maxgen=8)
    yield lambda: (replay_model(chk, 'MCVault_faults', limit=1500, tour=True), random_cli(chk, 16, 24, fault=0.3, maxgen=2, shell=0.8))
    yield lambda: codes_lib(chk, 1, 40, 0)
    yield lambda: validate(chk, 'TraceVault', libdrive.derivations(chk, [(n, c) for c in range(1, 16) for n in (1, 3, 4, 9, 24, 40)]), describe_vault)
    yield lambda: secrecy_judge(chk, secrecy.libs(chk, 16, 40) + secrecy.clis(chk, 16, 16, cli_weights(list=6, exit=1), usage=0.05, shell=0.6, maxgen=2))


chk = common.Check('ALL')
rc = 0
try:
    chk.build(shim=True)
    for step in steps(chk):
        step()
        if chk.violations:
            break
    if common.trouble() and not chk.violations:
        raise common.ToolError(common.trouble())
except common.ToolError as e:
    print('CHECK ERROR:', e)
    rc = 2
except Exception:
    import traceback
    traceback.print_exc()
    rc = 2
if chk.violations:
    rc = 1
    print(chk.violations[0])
shutil = __import__('shutil')
if chk.bins:
    shutil.rmtree(chk.bins['dir'], ignore_errors=True)
sys.exit(rc)
