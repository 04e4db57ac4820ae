LEVEL = 'exploration'
ALLSRV = ['light', 'reg', 'server']
PROTO = dict(bin='proto', harness=['engine.cc', 'vclock.cc', 'p_proto.cc'], sets=ALLSRV)
TARGETS = {
    'C01': PROTO,
    'C02': PROTO,
    'C03': PROTO,
    'C04': dict(PROTO, bin='proto-ubsan', variant='ubsan'),
}
METERS = dict(bin='meters', harness=['engine.cc', 'vclock.cc', 'p_meters.cc'], sets=['light'])
for _p in ('C06', 'C07', 'C08', 'C09', 'C11', 'C12', 'C13', 'C15'):
    TARGETS[_p] = METERS
REGISTRY = dict(bin='registry', harness=['engine.cc', 'vclock.cc', 'p_registry.cc'], sets=['light', 'reg'])
for _p in ('C14', 'C20', 'C21', 'C25', 'C28'):
    TARGETS[_p] = REGISTRY
NET = dict(bin='net', harness=['engine.cc', 'vclock.cc', 'p_net.cc'], sets=['light', 'reg'])
for _p in ('C16', 'C17', 'C18', 'C19', 'C23'):
    TARGETS[_p] = NET
TARGETS['C05'] = dict(bin='sock', harness=['engine.cc', 'vclock.cc', 'p_sock.cc'], sets=ALLSRV)
TARGETS['C22'] = dict(bin='admin', harness=['engine.cc', 'vclock.cc', 'p_admin.cc'], sets=['light', 'reg', 'server', 'admin'],
                      libs=__import__('vbuild').POCO)
SCHED = dict(bin='sched', harness=['engine.cc', 'vclock.cc', 'schedrun.cc', '!p_sched.cc'], sets=['light', 'reg'], variant='sched')
TARGETS['C10'] = SCHED
SYS = dict(SCHED, bin='sys', harness=['engine.cc', 'vclock.cc', 'schedrun.cc', '!p_sys.cc'], sets=ALLSRV)
for _p in ('C26', 'C27', 'C29'):
    TARGETS[_p] = SYS
TARGETS['C24'] = dict(bin='proc', harness=['engine.cc', 'vclock.cc', 'p_proc.cc'], sets=ALLSRV)
_FLAGS = ('-labsl_flags_parse -labsl_flags_usage -labsl_flags_usage_internal -labsl_flags_internal -labsl_flags_marshalling '
          '-labsl_flags_reflection -labsl_flags_config -labsl_flags_program_name -labsl_flags_private_handle_accessor '
          '-labsl_flags_commandlineflag -labsl_flags_commandlineflag_internal').split()
TARGETS['C30'] = dict(bin='main', harness=['engine.cc', 'vclock.cc', 'p_main.cc'], sets=['light'],
                      main_bin=(('spectatord', ['main_config.cc'],
                                 ['light', 'http', 'spectator/registry.cc', 'server', 'admin', 'main']),
                                dict(libs=__import__('vbuild').POCO + _FLAGS)))

# properties with a second stage: the same under generated thread schedules (p_sched.cc)
THREADS = ('C06', 'C07', 'C08', 'C09', 'C11', 'C14', 'C17', 'C18', 'C20', 'C21', 'C23', 'C25', 'C28')


def stages(pid):
    out = [(pid, TARGETS[pid])]
    if pid in THREADS:
        out.append((pid + '+threads', SCHED))
    return out
