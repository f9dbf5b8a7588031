"""Runtime monitors for sqlvalidator: workload generators, reference models, oracles."""
