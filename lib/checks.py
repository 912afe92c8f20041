"""What each check does, property by property."""
import json, os
import common, vault, libdrive, cligen, clidrive, recdrive, fsdrive, damage, interop, secrecy, climodel
from vault import validate, walk, graph_from_model, tours, describe_vault
from clidrive import describe_cli


def replay_model(chk, cfg, limit=None, tour=False, module='MCVault', **kw):
    """Every (or a drawn part of every) transition of a bounded model, taken by the real library."""
    g = graph_from_model(chk, cfg, module)
    if tour:
        hist = tours(chk, g, libdrive.Faults, limit=limit or 4000, **kw)
        chk.log('%s: %d transitions, tours with %d calls' % (cfg, g.size(), sum(len(h['events']) for h in hist)))
        validate(chk, 'TraceVault', hist, describe_vault)
        return
    sus = walk(chk, g, limit=limit)
    chk.log('%s: %d transitions, %d replayed, %d suspicious' % (
        cfg, g.size(), chk.cov['spec_transitions_replayed'], len(sus)))
    if sus:
        validate(chk, 'TraceVault', sus, describe_vault)


def random_lib(chk, n, length, weights=None, **kw):
    """Recorded random histories of library calls with unusual texts, validated by TLC."""
    hist = libdrive.histories(chk, n, length, weights or libdrive.DEFAULT, **kw)
    chk.log('recorded %d histories' % len(hist))
    for h in hist[:2]:
        chk.sample([vault.readable({k: v for k, v in e.items() if k != 'disk'}) for e in h['events'][:12]])
    validate(chk, 'TraceVault', hist, describe_vault)


def random_cli(chk, n, steps, weights=None, **kw):
    """Recorded random dialogues with the command line program, validated by TLC."""
    hist = cligen.dialogues(chk, n, steps, cli_weights(**(weights or {})), **kw)
    chk.log('recorded %d dialogues, %d inputs' % (len(hist), sum(len(h['events']) for h in hist)))
    for h in hist[:2]:
        chk.sample([{k: v for k, v in clidrive.show_event(e).items() if k != 'file'} for e in h['events'][:12]])
    validate(chk, 'TraceCli', hist, describe_cli)
    return hist


def model_cli(chk, *cfgs, limit=1600, **kw):
    """The dialogues of a bounded model, all of them in the thorough tier, had with the real program."""
    for cfg in cfgs:
        validate(chk, 'TraceCli', climodel.replay(chk, cfg, limit=chk.pick(limit, None), **kw), describe_cli)


def weights(**kw):
    return dict(libdrive.DEFAULT, **kw)


def cli_weights(**kw):
    return dict(cligen.DEFAULT, **{k.replace('_', '-'): v for k, v in kw.items()})


def C01(chk):
    chk.build()
    replay_model(chk, 'MCVault_contents')
    random_lib(chk, chk.pick(64, 800), 60, weights(reload=3), npps=2)
    model_cli(chk, 'entries')
    random_cli(chk, chk.pick(16, 400), 30, dict(list=6, show=6, notes=3, alias=2), shell=0.4, newproc=0.5)
    random_cli(chk, chk.pick(8, 100), 12, dict(remove=4), setup='write', stored=60, newproc=0.5)


def C02(chk):
    chk.build()
    replay_model(chk, 'MCVault_contents')
    random_lib(chk, chk.pick(64, 800), 60)
    model_cli(chk, 'notes')
    random_cli(chk, chk.pick(16, 400), 30, dict(add=5, list=6, add_code=3, set_primary=0.8, show=6), yes=0.25, usage=0.12, setup='mixed')


def C03(chk):
    chk.build()
    replay_model(chk, chk.pick('MCVault_ids1', 'MCVault_ids'))
    random_lib(chk, chk.pick(64, 800), 60, weights(setAlias=3, get=5, has=6), nsites=4, nnames=4, nrevs=4)
    model_cli(chk, 'revs')
    random_cli(chk, chk.pick(16, 400), 30, dict(list=2, show=8, remove=3, notes=2), nsites=3, nnames=3, nrevs=4, again=0.75, shell=0.7)


def C04(chk):
    chk.build()
    replay_model(chk, 'MCVault_deep', limit=chk.pick(24000, None))
    random_lib(chk, chk.pick(64, 800), 80, weights(setAlias=20, removeAlias=6, getAlias=6, listSites=4, list=4, removeSites=4), nsites=6)
    model_cli(chk, 'alias')
    random_cli(chk, chk.pick(12, 300), 30, dict(alias=4, set_alias=8, remove_alias=4, list=2), shell=0.8)


def C05(chk):
    chk.build()
    random_lib(chk, chk.pick(64, 800), 60, weights(list=16, listSites=10, setAlias=8), patterns=True, nsites=5, nnames=4, nrevs=4)
    random_cli(chk, chk.pick(32, 600), 36, dict(list=22, add=5, add_stored=6, set_alias=5, set_notes=3, show=1), wild=0.7,
               shell=0.85, newproc=0.05, nsites=5, nnames=4, nrevs=3)
    random_cli(chk, chk.pick(8, 100), 12, dict(list=30), wild=0.8, setup='write', stored=60, maxgen=4)
    findings_c05(chk)


def C06(chk):
    chk.build()
    replay_model(chk, 'MCVault_lock')
    random_lib(chk, chk.pick(64, 800), 30, weights(lock=4, unlock=6, reset=0.3, reload=1), npps=3)
    model_cli(chk, 'lock')
    random_cli(chk, chk.pick(16, 400), 24, dict(lock=6, list=5, show=5, set_primary=0.5), right=0.4, newproc=0.4, npps=3, setup='any')
    # many attempts in a row
    random_lib(chk, chk.pick(8, 100), 80, weights(lock=1, unlock=40, reset=0.1), npps=5)
    random_cli(chk, chk.pick(8, 100), 8, dict(lock=6), right=0.06, newproc=0.2, npps=4, kill=0.005)


def C07(chk):
    chk.build(shim=True)
    replay_model(chk, 'MCVault_lock')
    model_cli(chk, 'primary')
    random_cli(chk, chk.pick(40, 800), 14, dict(set_primary=8, add_stored=3), setup='any', npps=3, right=0.7, shell=0.2, yes=0.7)
    hist = secrecy.libs(chk, chk.pick(16, 200), 24, dict(secrecy.WEIGHTS, reset=8, restart=3, reload=3))
    hist += secrecy.clis(chk, chk.pick(24, 400), 10, cli_weights(set_primary=16), usage=0.02, shell=0.2, maxgen=2, right=0.9, yes=0.8)
    secrecy_judge(chk, hist)


def C10(chk):
    chk.build()
    codes_lib(chk, chk.pick(2, 40), chk.pick(60, 120), 0)
    model_cli(chk, 'code')
    random_cli(chk, chk.pick(40, 800), 24, dict(add_code=14, add_stored=1, add=0.5, show=2, list=1, set_primary=0.1, qr=0), typos=0.5, shell=0.8,
               newproc=0.1, yes=0.6)


def C11(chk):
    chk.build()
    replay_model(chk, 'MCVault_notes')
    random_lib(chk, chk.pick(64, 800), 60, weights(setNotes=14, getNotes=6, list=5))
    model_cli(chk, 'notes')
    random_cli(chk, chk.pick(16, 400), 30, dict(notes=5, set_notes=8, list=5))


def C12(chk):
    chk.build()
    model_cli(chk, 'entries')
    random_cli(chk, chk.pick(40, 800), 30, dict(add=6, add_stored=8, add_code=3, list=1, show=3, set_alias=2.5), yes=0.5, shell=0.6,
               again=0.85, nsites=3, maxgen=6)


def C14(chk):
    chk.build()
    replay_model(chk, 'MCVault_faults', limit=chk.pick(4000, 60000), tour=True)
    random_lib(chk, chk.pick(64, 800), 50, weights(reset=0.8, get=1.5, reload=1), faults=0.25, npps=2)
    model_cli(chk, 'faults')
    random_cli(chk, chk.pick(16, 400), 30, fault=0.3, maxgen=0, shell=0.85)


def C15(chk):
    chk.build(shim=True)
    hist = secrecy_model(chk)
    hist += secrecy.libs(chk, chk.pick(48, 800), 60)
    chk.log('recorded %d histories of the library' % len(hist))
    hist += secrecy.clis(chk, chk.pick(32, 600), 24, cli_weights(list=7, set_primary=1, add=1, exit=1, lock=0.5), usage=0.05, shell=0.75,
                         newproc=0.2, maxgen=2, right=0.9, yes=0.8, typos=0.2, kill=0.01)
    hist += secrecy.longruns(chk, chk.pick(2, 8), chk.pick(900, 4000), chk.pick(40, 400))
    secrecy_judge(chk, hist)


def secrecy_model(chk):
    fresh = chk.pick('fresh', 'deep')
    with open(os.path.join(common.SPEC, 'MCSecrecy_fresh.cfg')) as f:
        text = f.read().replace('Emit = FALSE', 'Emit = TRUE')
    cfg = os.path.join(common.scratch('cfg'), 'MCSecrecy.cfg')
    with open(cfg, 'w') as f:
        f.write(text if not chk.thorough else text.replace('Depth = 4', 'Depth = 5'))
    r = chk.model('MCSecrecy.tla', cfg)
    chk.cov['models'][-1].update(config='MCSecrecy_fresh')
    if chk.thorough:
        chk.model('MCSecrecy', 'MCSecrecy_deep.cfg')
    for v, what in (('process', 'nonces counted from the start of each process'), ('keep', 'overwriting keeps the nonce'),
                    ('content', 'nonces derived from the contents'), ('code', 'recovery codes take the nonce of the entry'),
                    ('salt', 'a new primary password keeps the salt'), ('secret', 'a new primary password keeps the digest secret')):
        chk.refute('MCSecrecy', 'MCSecrecy_%s.cfg' % v, what)
        chk.model('MCSecrecy', 'MCSecrecy_%s_noticed.cfg' % v)
    seqs = common.printed(r.out, 'OPS')
    if not seqs:
        raise common.ToolError('no behaviours were enumerated')
    hist = secrecy.model_runs(chk, seqs)
    chk.log('%d behaviours of the model executed' % len(hist))
    return hist


def secrecy_judge(chk, hist):
    chk.log('%d histories, %d nonces, %d salts' % (len(hist), sum(len(h['drawn'][0]) for h in hist), sum(len(h['drawn'][1]) for h in hist)))
    for h in hist[-2:]:
        chk.sample(h['what'][:8])
    hist.append(secrecy.together(hist))
    validate(chk, 'TraceSecrecy', hist, secrecy.describe, chunk=20000)


def C16(chk):
    chk.build()
    hist = damage.histories(chk, chk.pick(96, 1600), 30)
    chk.log('recorded %d histories on damaged files' % len(hist))
    for h in hist[:3]:
        chk.sample([vault.readable({k: v for k, v in e.items() if k != 'disk'}) for e in h['events'][:10]])
    validate(chk, 'TraceVault', hist, describe_vault)
    random_cli(chk, chk.pick(48, 900), 20, dict(show=8, list=10, notes=4, set_notes=3, add=2, set_primary=0.4), setup='harmed', shell=0.7,
               wild=0.6, maxgen=12, right=0.9, again=0.8, kill=0.01, eof=0.01)


def C17(chk):
    chk.build()
    hist = interop.histories(chk, chk.pick(64, 1200), 6)
    chk.log('recorded %d histories' % len(hist))
    for h in hist[:2]:
        chk.sample([vault.readable({k: v for k, v in e.items() if k != 'disk'}) for e in h['events'][:10]])
    validate(chk, 'TraceVault', hist, describe_vault)
    random_cli(chk, chk.pick(32, 600), 24, dict(show=8, list=8, notes=3, add=2, set_primary=0.3), foreign=0.25, setup='reset', shell=0.6,
               newproc=0.3, wild=0.6, maxgen=10, right=0.9, again=0.8)


def C18(chk):
    chk.build()
    model_cli(chk, 'usage', 'lock', limit=1000)
    random_cli(chk, chk.pick(40, 800), 36, dict(lock=1.5, exit=0.6, shell=0.8, set_primary=0.5), usage=0.2, shell=0.85, newproc=0.08)
    random_cli(chk, chk.pick(8, 100), 120, dict(lock=0.5, exit=0, shell=0.5, set_primary=0.3), usage=0.1, shell=1, newproc=0, kill=0, eof=0)
    random_cli(chk, chk.pick(16, 300), 30, dict(lock=1.5, exit=0.6), tty='edit', usage=0.1, shell=0.95, newproc=0.1)


def C19(chk):
    chk.build()
    model_cli(chk, 'entries', limit=1000)
    random_cli(chk, chk.pick(40, 800), 30, dict(show=8, qr=6, alias=4, list=5), usage=0.12, shell=0.4, setup='any')
    random_cli(chk, chk.pick(16, 300), 24, dict(show=10, qr=12, list=5, add_code=4), setup='write', stored=8, maxgen=4, again=0.9)


def C22(chk):
    chk.build()
    random_cli(chk, chk.pick(64, 1000), 30, dict(set_primary=1.5, add_stored=8, add_code=3, lock=2, exit=1), tty=True, setup='mixed', shell=0.5)
    random_cli(chk, chk.pick(24, 400), 16, dict(lock=4, set_primary=3), tty=True, setup='any', right=0.5, newproc=0.4, usage=0.15, kill=0.05)
    random_cli(chk, chk.pick(24, 400), 20, dict(set_primary=1, add_stored=8), tty='edit', setup='any', shell=0.8, newproc=0.3, usage=0.1)


def C23(chk):
    chk.build()
    chk.model('MCHistory', 'MCHistory_one.cfg')
    chk.model('MCHistory', 'MCHistory_two.cfg')
    chk.refute('MCHistory', 'MCHistory_answers.cfg', 'answers get into the history')
    talk = dict(add_stored=8, add_code=3, lock=3, exit=2.5, set_notes=4)
    random_cli(chk, chk.pick(40, 600), 30, talk, past=True, setup='mixed', shell=0.95, newproc=0.2, usage=0.1)
    random_cli(chk, chk.pick(16, 200), 30, talk, past=True, shell=0.95, newproc=0.15, procs=2, kill=0.01)
    random_cli(chk, chk.pick(16, 200), 24, talk, past=True, tty=True, shell=0.95, newproc=0.2)
    random_cli(chk, chk.pick(24, 400), 30, talk, past=True, tty='edit', setup='mixed', shell=0.95, newproc=0.2, usage=0.1)
    random_cli(chk, chk.pick(8, 100), 130, dict(lock=0.5, exit=0, shell=0.5), shell=1, newproc=0.006, usage=0.3, kill=0, eof=0)


def C24(chk):
    chk.build(harness=False)
    model_cli(chk, 'usage', 'code', limit=800, split=True)
    random_cli(chk, chk.pick(32, 500), 30, dict(list=6, show=6, set_primary=0.8), split=True, setup='any', usage=0.15, shell=0.5, wild=0.5)
    random_cli(chk, chk.pick(16, 300), 24, dict(add_code=8, list=6, lock=2), split=True, setup='write', typos=0.5, right=0.6, stored=8)
    random_cli(chk, chk.pick(8, 150), 20, dict(list=6, show=6), split=True, setup='harmed', wild=0.6, right=0.9, again=0.8)
    random_cli(chk, chk.pick(8, 150), 24, split=True, fault=0.3, maxgen=0)


def C25(chk):
    chk.build(harness=False, shim=True)
    chk.model('MCFs', 'MCFs_temp.cfg')
    chk.refute('MCFs', 'MCFs_untidy.cfg', 'failing to save leaves the temporary file')
    random_cli(chk, chk.pick(40, 600), 24, dict(exit=1), setup='any', around=True, past=True, shell=0.5, wild=0.3)
    random_cli(chk, chk.pick(16, 300), 24, setup='write', around=True, fault=0.3, maxgen=0, procs=2)
    hist, _ = fsdrive.crashes(chk, chk.pick(1, 6), ('EIO', 'ENOSPC'), around=True)
    chk.log('%d interruptions' % chk.cov['interruptions'])
    validate(chk, 'TraceCli', hist, describe_cli)


def findings_c05(chk):
    """Demonstrates the listed defects on the real program; prints them while they are there."""
    w = clidrive.World(chk.bins['cli'], pps=['primary1'])
    wr = clidrive.Writer('primary1')
    wr.store({'sites': [{'site': 'www.x', 'alias': []}, {'site': 'q', 'alias': []}],
              'pws': [dict(type='sto', site='www.x', name='n', rev='', len=0, cs=0, value='v', notes=''),
                      dict(type='sto', site='q', name='aaab', rev='', len=0, cs=0, value='v', notes='')]})
    wr.write(w.path)
    w.disk = w.look()
    w.hist['disk0'] = clidrive.tla_state(w.disk)
    w.start(['list'])
    w.line('primary1')
    if 'Passwords for www.x:\n    n (stored)\n' not in w.out:
        chk.finding('www-twice', 'list shows %r' % w.out)
    w.start(['list', 'q', '*aab'])
    w.line('primary1')
    if 'aaab (stored)' not in w.out:
        chk.finding('wildmatch', 'list q *aab shows %r' % w.out)
    w.close()


def codes_lib(chk, n, per, systematic):
    hist = recdrive.histories(chk, n, per, systematic)
    chk.log('decoded %d texts' % sum(len(h['events']) for h in hist))
    for h in hist[:2]:
        chk.sample([(e['op'], recdrive.uncodes(e['text']), e['res']['e'], e['res']['line']) for e in h['events'][:6]])
    validate(chk, 'TraceRecovery', hist, recdrive.describe, chunk=4000)


def C08(chk):
    chk.build()
    chk.model('MCDerive', 'MCDerive_few.cfg')
    if chk.thorough:
        chk.model('MCDerive', 'MCDerive_all.cfg')
        chk.model('MCDerive', 'MCDerive_deep.cfg')
    chk.refute('MCDerive', 'MCDerive_wrong.cfg', 'a mapping which ignores missing classes')
    combos = [(n, c) for c in range(1, 16) for n in range(4, 25)]
    if chk.thorough:
        combos = combos * 6 + [(n, c) for c in range(1, 16) for n in list(range(1, 4)) + list(range(25, 70))]
    else:
        combos += [(n, c) for c in range(1, 16) for n in (1, 2, 3, chk.rng.randrange(25, 70))]
    hist = libdrive.derivations(chk, combos)
    chk.log('derived %d passwords' % chk.cov['passwords_derived'])
    validate(chk, 'TraceVault', hist, describe_vault)
    random_cli(chk, chk.pick(24, 400), 24, dict(add=14, add_stored=1, add_code=0, show=10, qr=2, list=4, notes=1, set_notes=1), maxgen=12, yes=0.8,
               shell=0.8)


def C09(chk):
    chk.build()
    codes_lib(chk, chk.pick(3, 40), chk.pick(40, 120), chk.pick(1, 2))
    random_cli(chk, chk.pick(24, 400), 24, dict(add_code=10, list=10, add_stored=5, add=1, show=4), typos=0.3, shell=0.8, newproc=0.1, yes=0.7)


def C13(chk):
    chk.build(harness=False, shim=True)
    chk.model('MCFs', 'MCFs_temp.cfg')
    if chk.thorough:
        chk.model('MCFs', 'MCFs_deep.cfg')
    chk.refute('MCFs', 'MCFs_inplace.cfg', 'the file itself is overwritten')
    chk.refute('MCFs', 'MCFs_unlink.cfg', 'the old file is removed first')
    chk.refute('MCFs', 'MCFs_keep.cfg', 'a left-over temporary file is not truncated')
    fs_check(chk, chk.pick(1, 12), chk.pick(('EIO', 'ENOSPC'), list(fsdrive.ERRNOS)))


def fs_check(chk, images, errnos):
    hist, fs = fsdrive.crashes(chk, images, errnos)
    chk.log('%d interruptions, %d saves recorded' % (chk.cov['interruptions'], len(fs)))
    if not chk.cov['interruptions']:
        raise common.ToolError('no file operation was seen')
    for h in fs[:2]:
        chk.sample([(e['op'], os.path.basename(e['path']), e['len']) for e in h['events']])
    validate(chk, 'TraceFs', fs, fsdrive.describe_fs)
    validate(chk, 'TraceCli', hist, describe_cli)


def C20(chk):
    chk.build(shim=True)
    chk.model('MCFs', 'MCFs_temp.cfg')
    if chk.thorough:
        chk.model('MCFs', 'MCFs_deep.cfg')
    chk.refute('MCFs', 'MCFs_fixed.cfg', 'one temporary file name for all')
    chk.model('MCShare', 'MCShare_careful.cfg')
    chk.refute('MCShare', 'MCShare_undo.cfg', 'private copies undo each other: known finding lost-update')
    for cfg in ('two', 'pps', 'alias') + (('three',) if chk.thorough else ()):
        replay_model(chk, 'MCShare_' + cfg, module='MCShare', limit=chk.pick(2500, None))
    hist = libdrive.shared_histories(chk, chk.pick(48, 800), 60, weights(reset=0.4, lock=0.5, unlock=1, get=2), npps=2, nsites=3, nnames=2, nrevs=2)
    chk.log('recorded %d histories of several instances' % len(hist))
    for h in hist[:2]:
        chk.sample([vault.readable({k: v for k, v in e.items() if k != 'disk'}) for e in h['events'][:12]])
    validate(chk, 'TraceVault', hist, describe_vault)
    hist = cligen.crowds(chk, chk.pick(40, 800), 50, cli_weights(lock=1, set_primary=0.4, add=1, list=6), shim=chk.bins['shim'], shell=0.6,
                         usage=0.01, nsites=2, nnames=2, nrevs=2, again=0.8, maxgen=2, right=0.9, yes=0.8, typos=0.2)
    chk.log('recorded %d dialogues of several processes, %d inputs' % (len(hist), sum(len(h['events']) for h in hist)))
    for h in hist[:2]:
        chk.sample([{k: v for k, v in clidrive.show_event(e).items() if k != 'file'} for e in h['events'][:12]])
    validate(chk, 'TraceCli', hist, describe_cli)
    hist = fsdrive.schedules(chk, chk.pick(4, 60))
    chk.log('%d schedules of two saves' % len(hist))
    if not chk.cov['file_operations_per_save']:
        raise common.ToolError('no file operation was seen')
    for h in hist[:2]:
        chk.sample([{k: v for k, v in clidrive.show_event(e).items() if k != 'file'} for e in h['events'][:12]])
    validate(chk, 'TraceCli', hist, describe_cli)
    findings_c20(chk)


def findings_c20(chk):
    """Two instances, each saves a change; is the first one's still there?"""
    h = vault.Harness(chk.bins['harness'])
    path = os.path.join(common.scratch('lost'), 'storage.json')
    entry = lambda i, site: h.call(op='setStored', i=i, path=path, site=site, name='n', rev='', value='v')
    h.call(op='new', i=1, path=path)
    h.call(op='reset', i=1, path=path, pp='primary1')
    h.call(op='load', i=2, path=path)
    h.call(op='unlock', i=2, path=path, pp='primary1')
    done = [entry(1, 'first'), entry(2, 'second')]
    h.call(op='load', i=3, path=path)
    h.call(op='unlock', i=3, path=path, pp='primary1')
    left = [h.call(op='has', i=3, path=path, site=s, name='n', rev='') for s in ('first', 'second')]
    h.close()
    if all('ok' in d for d in done) and left != [{'ok': True}] * 2:
        chk.finding('lost-update', 'after both instances reported their change as done, has() gives %r' % left)
