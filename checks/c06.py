import _path, oracles, evcheck, evt, brstat
TW = lambda r: r.choice([-1.0, -1.0, 0.0, 10 ** r.uniform(-10, 2)])


def extra(th, seed):
    return brstat.make_tasks(48, 32, 600, seed) if th else brstat.make_tasks(8, 6, 220, seed)


evcheck.event_check("C06", oracles.discrete_chain, "events with at least one emitted photon or neutron, distinct (reaction, energy, seed, window); each is a cascade through generated level schemes",
                    n_quick=2200, n_thorough=40000, specs=evt.FULL + evt.ISO, tw=TW, extra_tasks=extra, extra_run=brstat.run).main()
