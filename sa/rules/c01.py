"""C01: every process executes the same sequence of collective operations.

Rule: no collective (direct, or through any call chain, property, operator or iteration protocol the points-to
analysis resolves) is control dependent on a value that may differ between processes, unless both sides of the
branch perform the same collective sequence; and the root argument of a collective never differs between processes.
"""

# master/worker protocol: the master side runs inside the serial runner (legacy tree, not analysed), so the pairing
# of its barriers with those of the workers is not decided here
EXEMPT = {'tools.run.runners._3d_matrix_inputs.main': 'master/worker protocol with the serial runner'}


def construct(S, ev):
    f = ev.f
    if ev.kind in ('coll', 'root'):
        return f'{ev.kind}:{f.qual}:{ev.why}'
    if ev.kind == 'call':
        return f'call:{f.qual}:{S.fof[ev.why[0]].qual}'
    u, t = ev.why
    return f'arg:{f.qual}:{S.fof[u[0]].qual}:{t[1]}'


def run(t, r, sample=False):
    r.rule = ('No collective operation is control dependent on a process-dependent value (rank, received or gathered '
              'data, local sizes, clock, random numbers) unless the alternative branch performs the same collective '
              'sequence; roots are process independent.')
    S = t.s
    direct = calls = args = 0
    kinds = {}
    for u, evs in S.events.items():
        for ev in evs.values():
            if ev.kind == 'p2p':
                continue
            if ev.kind == 'coll':
                direct += 1
                kinds[ev.why] = kinds.get(ev.why, 0) + 1
            elif ev.kind == 'call':
                calls += 1
            elif ev.kind == 'argcond':
                args += 1
            ts = [x for x in ev.tokens if isinstance(x, str)]
            if not ts or ev.f.mod.name in EXEMPT:
                continue
            loc = f'{ev.f.mod.rel}:{ev.node.lineno}'
            why = ts[0].replace('T:', '')
            if ev.kind == 'coll':
                msg = f'collective COMM.{ev.why} in {ev.f.name} runs only on some processes: depends on {why}'
            elif ev.kind == 'root':
                msg = f'root of COMM.{ev.why} in {ev.f.name} differs between processes: {why}'
            elif ev.kind == 'call':
                msg = (f'call in {ev.f.name} that performs collectives runs only on some processes: depends on {why}; '
                       f'path {S.coll_chain(ev.why)}')
            else:
                (fid, ctx), tok = ev.why
                g = S.fof[fid]
                msg = (f'{ev.f.name} passes a process-dependent value ({why}) as {tok[1]} to {g.qual}, which performs '
                       f'collectives under its control')
            r.violation(construct(S, ev), loc, msg)
    r.count('functions analysed (with receiver class)', len(S.units))
    r.count('guarded-call obligations', calls)
    r.count('argument obligations', args)
    r.floor('direct collective obligations', direct, 1 if sample else 400)
    r.floor('functions that may perform a collective', len({u[0] for u in S.coll}), 1 if sample else 250)
    r.counts['collective kinds'] = kinds
    for u in sorted(S.coll, key=str)[:8]:
        r.sample(S.coll_chain(u))
    r.assumptions += [
        'exceptions end the program on the process that raises them and are not followed',
        'collectives inside memoised first-access code are assumed to be reached by all processes together',
        'replication contracts taken as given: ' + '; '.join(f'{c}.{a} ({b})' for (c, a), b in S.TRUST.items()),
        'code reached only through values the points-to analysis does not resolve is not followed',
    ] + [f'not decided in {m}: {why}' for m, why in EXEMPT.items()]
