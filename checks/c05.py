import _path, oracles, evcheck, evt
TW = lambda r: r.choice([-1.0, -1.0, -1.0, 0.0, 10 ** r.uniform(-10, 2)])
evcheck.event_check("C05", oracles.deexcitation, "events with at least one emitted particle, distinct (reaction, energy, seed, window)",
                    n_quick=2600, n_thorough=40000, specs=evt.NOICC * 2 + evt.FULL[len(evt.NOICC):] + evt.ISO, tw=TW).main()
