"""Which recorded executions and models decide which property."""


def broken_sched(sid, why):
    n = {'op': 'Never'}
    return {'id': sid, 'n': 1, 'nctx': 1, 'pairs': [], 'ids': [], 'graph': [[]], 'conds': [n],
            'mode': 'std', 'dflt': 0, 'te': n, 'ts': n, 'ev': [{'e': 'fail', 'c': why}]}


def broken_plain(sid, why):
    return {'id': sid, 'ev': [{'e': 'fail', 'c': why}]}


def broken_struct(sid, why):
    return {'id': sid, 'n': 1, 'graph': [[]], 'conds': [], 'ev': [{'e': 'fail', 'c': why}]}


def broken_time(sid, why):
    return {'id': sid, 'top': 4, 'depth': 2, 'timed': True, 'ev': [{'e': 'fail', 'c': why}]}


def broken_twin(sid, why):
    h = broken_sched(sid, why)
    return {'id': sid, 'half': [{k: v for k, v in h.items() if k not in ('id', 'ev')}],
            'ev': [{'e': 'fail', 'c': why, 'w': 1}]}


KINDS = {
    'sched': {'recorder': 'sched', 'generator': 'gen', 'monitor': 'SchedTrace', 'broken': broken_sched},
    'twin': {'recorder': 'twinrec', 'generator': 'gentwin', 'monitor': 'TwinTrace', 'broken': broken_twin},
    'struct': {'recorder': 'structrec', 'generator': 'genstruct', 'monitor': 'StructTrace', 'broken': broken_struct},
    'time': {'recorder': 'timerec', 'generator': 'gentime', 'monitor': 'TimeTrace', 'broken': broken_time},
    'args': {'recorder': 'argsrec', 'generator': 'genargs', 'monitor': 'ArgsTrace', 'broken': broken_plain},
    'alias': {'recorder': 'aliasrec', 'generator': 'genalias', 'monitor': 'AliasTrace', 'broken': broken_plain},
    'utils': {'recorder': 'utilsrec', 'generator': 'genutils', 'monitor': 'UtilsTrace', 'broken': broken_plain},
    'forms': {'recorder': 'formsrec', 'generator': 'genforms', 'monitor': 'FormsTrace', 'broken': broken_plain},
    'gsc': {'recorder': 'gscrec', 'generator': 'gengsc', 'monitor': 'GSCTrace', 'broken': broken_plain},
}

ASSUME = ['single thread per scheduler; the generator returned by run is advanced by one caller at a time']

# clauses of the scheduler monitor that always belong to particular properties;
# everything else belongs to the property whose scenarios showed it
OWN = {
    'HIST': {'C11', 'C10', 'C26'},
    'STAMPS': {'C11', 'C18'},
    'QUEUE': {'C12', 'C01', 'C19'},
    'QINDEX': {'C12', 'C19'},
    'GRAPH': {'C12', 'C17'},
    'CYCLIC': {'C17'},
    'RUNERR': {'C17'},
    'TERMARG': {'C07', 'C24'},
    'BADTERM': {'C07'},
    'BADBASE': {'C10'},
    'EXACTWARN': {'C19'},
    'SWALLOWED': {'C26', 'C06'},
    'RAISED': {'C26', 'C06'},
    'OTHERERR': {'C26', 'C06'},
    'THROWN': {'C26'},
    'LAYER': {'C01', 'C19', 'C12'},
    'ORDER': {'C01', 'C12'},
    'SKIPPED': {'C01', 'C02', 'C04', 'C03', 'C05', 'C06', 'C10', 'C11', 'C12', 'C17', 'C19', 'C24', 'C23', 'C26'},
}
# clauses about observations that are only reported by these
CLOCKISH = {
    'CLOCK': {'C08', 'C10', 'C17', 'C18', 'C26'},
    'PREV': {'C08', 'C10', 'C17', 'C26'},
    'SIMPLE': {'C08'},
    'ABS': {'C18', 'C19', 'C10'},
}
PROBE = {
    'C04': {'BeforeNCalls', 'AtNCalls', 'AfterCall', 'AfterNCalls', 'AfterNCallsCombined', 'EveryNCalls',
            'JustRan', 'AllHaveRun'},
    'C06': {'All', 'Any', 'Not', 'NWhen', 'While', 'WhileNot', 'WhenFinished', 'WhenFinishedAny',
            'WhenFinishedAll', 'Threshold', 'Always', 'Never', 'EveryNCalls'},
}


GSC = {
    'C13': {'POSITION', 'UNCHANGED', 'EDGE', 'INPUT', 'SHARED', 'NODES', 'FOREIGN', 'ACYCLIC', 'LOST', 'EXTRA',
            'CUSTOM', 'MISSING', 'OPS', 'EXC', 'REFUSED', 'HANG'},
    'C14': {'OPS', 'CONFLICT', 'REFUSED', 'OPERATION', 'POSITION', 'LOST', 'EXTRA', 'EXC', 'NODES', 'INPUT', 'HANG'},
    'C15': {'SELF', 'PRUNE', 'UNPRUNED', 'RECONNECT', 'EXTRA', 'LOST', 'FOREIGN', 'ACYCLIC', 'POSITION', 'EXC', 'OPS',
            'NODES', 'INPUT', 'HANG'},
}


STRUCT = {
    'C12': {'GRAPH', 'QUEUE', 'QINDEX', 'INPUT', 'GERR', 'APPLIED', 'RUN', 'EXC', 'HANG', 'REFUSED'},
    'C16': {'BASIC', 'STRUCT', 'ORDER', 'CONDS', 'OWNER', 'RET', 'WARN', 'OWNERS', 'EXC', 'HANG'},
    'C17': {'CYCLIC', 'RUNERR', 'EFFECT', 'CYCWARN', 'RUN', 'EXC', 'HANG', 'REFUSED'},
}


def concerns(prop, kind, fam, clause):
    if kind == 'struct' and prop in STRUCT:
        return clause in STRUCT[prop]
    if kind == 'gsc' and prop in GSC:
        return clause in GSC[prop]
    if kind != 'sched':
        return True
    for table in (OWN, CLOCKISH):
        if clause in table:
            return prop in table[clause]
    if clause.startswith('PROBE:') and prop in PROBE:
        return clause[6:] in PROBE[prop]
    return True


def S(fam, q, t=None):
    return ('sched', fam, q, t or 2 * q)


def G(fam, q, t=None):
    return ('gsc', fam, q, t or 2 * q)


def T(fam, q, t=None):
    return ('struct', fam, q, t or 2 * q)


PLAN = {
    'C01': {'traces': [S('g_order', 2000)], 'models': ['sched_replay']},
    'C02': {'traces': [S('g_fix', 2000)], 'models': ['sched_replay']},
    'C03': {'traces': [S('g_default', 2000)], 'models': ['sched_replay']},
    'C04': {'traces': [S('g_calls', 1800)], 'models': ['sched_replay']},
    'C05': {'traces': [S('g_times', 1800)], 'models': ['sched_replay']},
    'C06': {'traces': [S('g_composite', 1800)], 'models': ['sched_replay']},
    'C07': {'traces': [S('g_term', 2000)], 'models': ['sched_replay']},
    'C08': {'traces': [S('g_clock', 1800)], 'models': ['sched_replay']},
    'C09': {'traces': [('time', 't_tree', 3000, 6000)], 'models': ['time_replay']},
    'C10': {'traces': [S('g_ctx', 1800)], 'models': ['sched_replay']},
    'C11': {'traces': [S('g_carry', 1800)], 'models': ['sched_replay']},
    'C12': {'traces': [T('s_hist', 1500)], 'models': ['struct_replay']},
    'C13': {'traces': [G('t_enum3', 125), G('t_enum4r', 250), G('t_pos', 800)], 'models': ['gsc_dag3', 'gsc_dag4']},
    'C14': {'traces': [G('t_ops', 1200)], 'models': ['gsc_ops']},
    'C15': {'traces': [G('t_clean', 1000), G('t_pos', 500)], 'models': ['gsc_cyc']},
    'C16': {'traces': [T('s_set', 1500)], 'models': ['struct_replay']},
    'C17': {'traces': [S('g_cyclic', 1500), T('s_cyc', 1200)], 'models': ['sched_replay']},
    'C18': {'traces': [S('g_abs', 1200)], 'models': ['sched_replay']},
    'C19': {'traces': [S('g_exact', 1200)], 'models': ['sched_replay']},
    'C20': {'traces': [('utils', 'u_calls', 3000, 6000)], 'models': ['utils_replay']},
    'C21': {'traces': [('alias', 'al_hist', 700, 1500)], 'models': ['alias_replay']},
    'C22': {'traces': [('args', 'a_calls', 3000, 6000)], 'models': ['args_replay']},
    'C23': {'traces': [T('s_refuse', 1500)], 'models': ['struct_replay']},
    'C24': {'traces': [('twin', 'g_twins', 1200, 2400)], 'models': ['twin_replay']},
    'C25': {'traces': [('forms', 'f_mix', 3000, 8000)], 'models': ['forms_replay']},
    'C26': {'traces': [S('g_raise', 1500)], 'models': ['sched_replay']},
}

TECHNIQUE = 'TLA+ specification; TLC judges recorded executions of the implementation against it (trace validation)'
NOTE = ('Every recorded execution of the real code (generated graphs, conditions, schedules and histories) is '
        'checked by TLC to be a behaviour of the TLA+ specification, event by event. Bounded by the generated '
        'scenarios; trusts TLC and the recorder, which uses the public interface only.')
NA = {}
