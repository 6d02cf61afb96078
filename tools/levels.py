DEFAULT_NOTE = ('Every obligation of the contracts is discharged for all inputs (exact real arithmetic, arrays of every length where the '
                'evidence says unbounded; bounded sizes are labelled there), and the same contracts are evaluated on the real code with machine '
                'numbers. Trusted: pyvc, z3, CPython, the numpy/scipy contracts; machine rounding is outside the proof.')

LEVEL['C20'] = 'other'
NOTE['C20'] = ('Bounded, not counted as proved: the contract of mcmc is discharged for all stored values with at most two ensembles, walkers and '
               'rounds (stand-ins for emcee and h5py that only record), and evaluated on real emcee and h5py runs that are saved and resumed.')
