"""Compile units per property. Each unit is one program built from /repo's headers."""
COMMON_ASSUMPTIONS = [
    'the compiler (g++ 13 / clang 18), boost cpp_int (reference integers) and long double arithmetic are trusted',
    'rand() is replaced by an enumerated source; properties are checked for the enumerated answers',
]
def parts(src, n, **k): return [dict(src=src, defs=['PART=%d' % i], **k) for i in range(n)]
SANENV = {'ASAN_OPTIONS': 'detect_leaks=0:detect_stack_use_after_return=1:allocator_may_return_null=1', 'UBSAN_OPTIONS': 'print_stacktrace=0:halt_on_error=1'}
SANOPT = ['-O1', '-fsanitize=address,undefined,float-cast-overflow', '-fno-sanitize-recover=all']
UNITS = {
 'C01': dict(units=parts('c01.cpp', 8)),
 'C02': dict(units=parts('c02.cpp', 10, opt=['-O0', '-ftrivial-auto-var-init=pattern']) + [dict(src='c02.cpp', defs=['POLY'])]),
 'C03': dict(units=parts('c03.cpp', 5)),
 'C04': dict(units=[dict(src='c04.cpp')]),
 'C05': dict(units=parts('c05.cpp', 4)),
 'C06': dict(units=parts('c06.cpp', 4)),
 'C07': dict(units=parts('c07.cpp', 20, opt=['-O1', '-ftrivial-auto-var-init=pattern']) + [dict(src='c07.cpp', defs=['PART=20'], thorough=True)]),
 'C08': dict(units=[dict(src='c08.cpp')]),
 'C09': dict(units=parts('c09.cpp', 6, opt=['-O1', '-ftrivial-auto-var-init=pattern'])),
 'C10': dict(units=parts('c10.cpp', 8, opt=['-O2', '-ftrivial-auto-var-init=pattern'])),
 'C11': dict(units=parts('c11.cpp', 8, opt=['-O1', '-ftrivial-auto-var-init=pattern'])),
 'C12': dict(units=parts('c12.cpp', 8, opt=['-O1', '-ftrivial-auto-var-init=pattern'])),
 'C13': dict(units=parts('c13.cpp', 6, opt=['-O1', '-ftrivial-auto-var-init=pattern'])),
 'C14': dict(units=parts('c14.cpp', 7, opt=['-O1', '-ftrivial-auto-var-init=pattern'])),
 'C15': dict(units=parts('c15.cpp', 3)),
 'C16': dict(units=parts('c16.cpp', 6, opt=['-O1', '-ftrivial-auto-var-init=pattern'])),
 'C17': dict(units=parts('c17.cpp', 3)),
 'C18': dict(units=parts('c18.cpp', 8, opt=['-O1', '-ftrivial-auto-var-init=pattern']) + [dict(src='c18.cpp', defs=['DENSE'], must_compile=True)]),
 'C19': dict(units=parts('c19.cpp', 6, opt=['-O1', '-ftrivial-auto-var-init=pattern']) + [dict(src='c19.cpp', defs=['PART=6'], opt=['-O2', '-ftrivial-auto-var-init=pattern'], thorough=True)] + [dict(src='c19.cpp', defs=['PART=%d' % i], opt=['-O2', '-ftrivial-auto-var-init=pattern'], pri=0) for i in (7, 8, 9)]),
 'C20': dict(units=parts('c20.cpp', 6, opt=['-O1', '-ftrivial-auto-var-init=pattern']) + [dict(src='c20.cpp', defs=['PART=%d' % i], opt=['-O2', '-ftrivial-auto-var-init=pattern'], thorough=True) for i in (6, 7)] + [dict(src='c20.cpp', defs=['PART=%d' % i], opt=['-O2', '-ftrivial-auto-var-init=pattern'], pri=0) for i in (8, 9, 10, 11)]),
 'C21': dict(units=parts('c21.cpp', 6, opt=['-O1', '-ftrivial-auto-var-init=pattern']) + [dict(src='c21.cpp', defs=['PART=%d' % i], opt=['-O2', '-ftrivial-auto-var-init=pattern'], thorough=True) for i in (6, 7)] + [dict(src='c21.cpp', defs=['PART=%d' % i], opt=['-O2', '-ftrivial-auto-var-init=pattern'], pri=0) for i in (8, 9, 10)]),
 'C22': dict(units=parts('c22.cpp', 7, opt=['-O1', '-ftrivial-auto-var-init=pattern']) + [dict(src='c22.cpp', defs=['PART=%d' % i], opt=['-O2', '-ftrivial-auto-var-init=pattern'], thorough=True) for i in (7, 8)] + [dict(src='c22.cpp', defs=['PART=%d' % i], opt=['-O2', '-ftrivial-auto-var-init=pattern'], pri=0) for i in (9, 10, 11)]),
 'C23': dict(units=[dict(src='c23.cpp', defs=['FAM=%d' % i], opt=['-O1', '-ftrivial-auto-var-init=pattern']) for i in (0, 1, 2, 3, 10)]),
 'C24': dict(units=[dict(src='c24.cpp', rt=True, defs=['FAM=%d' % i, 'LIGHT'], opt=['-O1', '-ftrivial-auto-var-init=pattern'], pri=-i) for i in (0, 1, 2, 3, 4, 10, 11)], meaning='states: distinct (operation, schedule) executions; transitions and traces: complete executions of the instrumented real code under the controlled scheduler, each compared with the one-thread result and race-checked'),
 'C25': dict(units=[dict(src='c25.cpp', rt=True, defs=['FAM=%d' % i, 'LIGHT'], opt=['-O1', '-ftrivial-auto-var-init=pattern'], pri=-i) for i in (0, 1, 2, 3, 4, 10, 11)], meaning='states: distinct (program, schedule) executions; transitions and traces: complete executions of the instrumented real code under the controlled scheduler, each call compared with its result alone and race-checked'),
 'C27': dict(units=parts('c27.cpp', 8, opt=['-O2', '-ftrivial-auto-var-init=pattern'])),
 'C26': dict(units=[dict(src='c26.cpp', defs=['FAM=%d' % i], opt=SANOPT, env=SANENV, pri=0) for i in range(13)]
    + [dict(src='c26.cpp', defs=['FAM=%d' % i, 'PAINT'], opt=['-O0']) for i in (*range(11), 12)] + [dict(src='c26.cpp', defs=['FAM=%d' % i, 'INPUTS'], opt=['-O0', '-ftrivial-auto-var-init=pattern']) for i in (*range(11), 12)]),
}
# the quick scenarios of every other property once more under the sanitizers (thorough tier of C26)
UNITS['C26']['units'] += [dict(u, opt=SANOPT, env=dict(SANENV, VERIF_TIER='quick'), thorough=True, tier0=True, pri=2) for p in ['C%02d' % k for k in (*range(1, 23), 27)] for u in UNITS[p]['units'] if not u.get('thorough') and not u.get('must_compile')]
