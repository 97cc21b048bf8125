"""which world decides which property"""


def build(prop, tier):
    from . import ambient, batch, interrupt, meta, mix, neutral, session, solver, threads, twins
    if prop == 'C09':
        return threads.FunctionWorld(prop, tier)
    if prop == 'C10':
        return threads.SharedWorld(prop, tier)
    if prop == 'C11':
        return threads.ConstWorld(prop, tier)
    twin = dict(C04=getattr(twins, 'SetWorld', None), C05=getattr(twins, 'CopyWorld', None),
                C07=getattr(twins, 'RefusalWorld', None), C12=getattr(twins, 'RepeatWorld', None),
                C13=getattr(twins, 'ProtectionWorld', None))
    if twin.get(prop):
        return twin[prop](prop, tier)
    other = dict(C18='AliasWorld', C19='ModeWorld', C20='UnitsWorld', C21='PrecisionWorld')
    if prop in other:
        return getattr(meta, other[prop])(prop, tier)
    if prop == 'C22':
        return batch.BatchWorld(prop, tier)
    if prop == 'C23':
        return ambient.AmbientWorld(prop, tier)
    if prop == 'C24':
        return neutral.NeutralWorld(prop, tier)
    if prop == 'C08':
        return interrupt.InterruptWorld(prop, tier)
    if prop == 'C15':
        return solver.SolverWorld(prop, tier)
    if prop == 'C06':
        return mix.MixWorld(prop, tier, dict(quick=14000, thorough=180000)[tier], dict(
            edits=(0.85, session.SessionWorld(prop, tier)),
            iterators=(0.15, threads.SharedWorld(prop, tier))))
    if prop in session.PROPS:
        return session.SessionWorld(prop, tier)
    raise SystemExit(f'no check for {prop}')
