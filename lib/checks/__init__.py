# property id -> (module, function, evidence level)
REGISTRY = {
    'P01': ('state', 'check_isolation', 'proof'),
    'P03': ('state', 'check_readonly', 'proof'),
    'P05': ('sync', 'check_races', 'proof'),
    'P06': ('sync', 'check_wakeups', 'proof'),
    'P07': ('sync', 'check_lifetime', 'proof'),
    'P08': ('sync', 'check_exactly_once', 'proof'),
    'P13': ('entry', 'entry', 'proof'),
    'P09': ('eightbit', 'locks', 'proof'),
    'P14': ('eightbit', 'values', 'proof'),
    'P24': ('kernels', 'kernels', 'proof'),
    'P23': ('asserts', 'check', 'proof'),
    'P15': ('asmcheck', 'check', 'proof'),
    'P19': ('unpack', 'offsets', 'proof'),
    'P20': ('unpack', 'pipelines', 'proof'),
    'P21': ('pack', 'blocks', 'proof'),
    'P22': ('gemm', 'gemm', 'proof'),
    'P17': ('fixed', 'primitives', 'proof'),
    'P25': ('meta', 'meta', 'proof'),
}
