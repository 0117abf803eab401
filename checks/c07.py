import _path, oracles, evcheck, evt, tstat
TW = lambda r: r.choice([-1.0, 0.0, 10 ** r.uniform(-10, 2), 10 ** r.uniform(-10, 2)])
T0 = lambda r: r.choice([0.0, 0.0, 1e-8, 3.25e-7, 2.0])
SPECS = [dict(nmax=14, icc="none", iso_p=0.5, gaps=(0.02, 0.3), tscale=(-11, 2)), dict(nmax=20, icc="some", iso_p=0.3, gaps=(0.01, 0.2), tscale=(-11, 2)),
         dict(nmax=6, icc="none", iso_p=0.8, tscale=(-11, 2)), dict(nmax=12, icc="none", iso_p=0.0), dict(nmax=10, drop=0.3, iso_p=0.5, nogam_p=0.3)]


def extra(th, seed):
    ts = evt.make_tasks(6000 if th else 300, 25, seed, "C07t", evt.COMPARABLE, times=evt.correlated_times)
    return ts + (tstat.make_tasks(40, 40, 500, seed) if th else tstat.make_tasks(11, 8, 160, seed))


evcheck.event_check("C07", oracles.timing, "events with at least one emitted particle, distinct (reaction, energy, seed, window); window pairs count when the window cuts a photon",
                    n_quick=2000, n_thorough=40000, specs=SPECS, tw=TW, t=T0, extra_tasks=extra, extra_run=tstat.run).main()
