import _path, oracles, yld, evcheck
evcheck.event_check("C02", oracles.energy_balance, "events with at least one emitted particle, distinct (reaction, energy, seed, window); and every pair of fragments of a yields-only run",
                    n_quick=2000, n_thorough=40000, yoracle=yld.energy, y_quick=65, y_thorough=1300).main()
