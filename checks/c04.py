import _path, oracles, evcheck
evcheck.event_check("C04", oracles.emission_kinematics, "events with at least one emitted particle, distinct (reaction, energy, seed, window)",
                    n_quick=2400, n_thorough=24000).main()
