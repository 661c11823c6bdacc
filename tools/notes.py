TECHNIQUE = 'symbolic execution of the current Python and translated .pyx sources with an SMT solver (z3) deciding every claim on every path within stated bounds'
LEVEL_NOTE = ('bounded symbolic execution: every path of the listed functions within the stated array sizes/steps, claims discharged by z3 over exact reals; '
              'counterexamples replayed on the real code; not a proof (bounded sizes, exact-real arithmetic, trusted engine)')
TECH = {}
NA = {
    'C07': 'the claim that the chain samples the posterior is a limit statement about Monte Carlo averages, which no bounded solver query decides (its per-step premises are decided in C05 and C06); the counting half was read, not encoded: see DESIGN.md for the defects noticed',
    'C16': 'the schedules live in multiprocessing (processes, pipes, feeder threads), which is not in the code that can be executed symbolically; replacing the queues by stand-ins would decide a model of the pool and not the pool',
}
