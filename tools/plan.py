"""Which harness runs in which configuration for which property."""

G, C = 'g++-13', 'clang++-18'
# The library marks every function always_inline; switching that attribute off does not change what
# the code does and makes large harnesses compile in seconds. The *i configurations leave it on.
NI = ['-Dalways_inline=unused']
W = ['-w', '-pthread']
SAN = ['-g', '-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-DMC_MONITOR']
CONFIGS = {
    'cxx20': dict(cc=G, flags=['-std=c++20', '-O2'] + W + NI),
    'cxx17': dict(cc=G, flags=['-std=c++17', '-O2'] + W + NI),
    'cxx11': dict(cc=G, flags=['-std=c++11', '-O2'] + W + NI),
    'cxx11utf8': dict(cc=G, flags=['-std=c++11', '-O2', '-DIPADDRESS_CHAR_IS_UTF8'] + W + NI),
    'noexc': dict(cc=G, flags=['-std=c++23', '-O2', '-fno-exceptions', '-DIPADDRESS_NO_EXCEPTIONS'] + W + NI),
    'clang20': dict(cc=C, flags=['-std=c++20', '-O2'] + W + NI),
    'clang11': dict(cc=C, flags=['-std=c++11', '-O2'] + W + NI),
    'cxx20i': dict(cc=G, flags=['-std=c++20', '-O2'] + W),
    'cxx11i': dict(cc=G, flags=['-std=c++11', '-O2'] + W),
    'san': dict(cc=C, flags=['-std=c++20', '-O1'] + SAN + W + NI),
    # the instrumentation reports to the scheduler in mc/threads.hpp instead of the thread sanitizer's runtime
    'threads': dict(cc=C, flags=['-std=c++20', '-O1', '-Xclang', '-fsanitize=thread'] + W + NI),
    'threads11': dict(cc=C, flags=['-std=c++11', '-O1', '-Xclang', '-fsanitize=thread'] + W + NI),
    'san11': dict(cc=C, flags=['-std=c++11', '-O1'] + SAN + W + NI),
}


def R(h, *configs, **kw):
    return [dict(harness=h, config=c, **kw) for c in configs]


def std(h, *more, **kw):
    """Both ends of the supported standards and both compilers; always-inlined code in the thorough tier."""
    return R(h, 'cxx20', 'cxx11', 'clang20', *more, **kw) + R(h, 'cxx20i', thorough_only=True, **dict(kw, opt='-O0'))


ENTRY_POINTS = R('c06', 'cxx11', 'cxx20', only='literal_operators,overloads')

def LOCALE(h):
    """with a global locale that writes numbers in its own way"""
    return R(h, 'cxx20', defines=['-DMC_LOCALE'], tag='locale')


COMMON = ['the reference model in mc/ref.hpp states the documented semantics', 'the host is x86-64 Linux with gcc 13 and clang 18']

ALL = ['c%02d' % k for k in range(1, 33) if k not in (23, 24, 28, 29, 31)]

PLAN = {
    'C01': dict(runs=std('c01') + ENTRY_POINTS),
    'C02': dict(runs=std('c02') + ENTRY_POINTS),
    'C03': dict(runs=std('c03') + LOCALE('c03')),
    'C04': dict(runs=std('c04') + ENTRY_POINTS),
    'C05': dict(runs=std('c05', 'noexc') + LOCALE('c05') + ENTRY_POINTS),
    'C06': dict(runs=std('c06', 'cxx11utf8')),
    # C07: also with the conversions of a big-endian host (arithmetic only: the host's own integers are not looked at)
    'C07': dict(runs=std('c07') + R('c07', 'cxx11', defines=['-DIPADDRESS_ENDIAN=1'], tag='big')),
    'C08': dict(runs=std('c08')),
    'C09': dict(runs=std('c09')),
    'C10': dict(runs=std('c10')),
    'C11': dict(runs=std('c11')),
    'C12': dict(runs=std('c12')),
    'C13': dict(runs=std('c13')),
    'C14': dict(runs=std('c14')),
    'C15': dict(runs=std('c15')),
    'C16': dict(runs=std('c16') + R('c14', 'cxx20', 'cxx11', only='any_hosts,any_subnets,versions') + ENTRY_POINTS),
    'C17': dict(runs=std('c17')),
    'C18': dict(runs=std('c18') + LOCALE('c18')),
    'C19': dict(runs=std('c19')),
    'C20': dict(runs=std('c20') + R('c20', 'cxx20', defines=['-DIPADDRESS_IPV6_SCOPE_MAX_LENGTH=5', '-DMC_SCOPE_MAX=5', '-DIPADDRESS_SCOPE_ID_SUPPORT_SPACES'], tag='max5spaces') + R('c20', 'cxx11', defines=['-DIPADDRESS_IPV6_SCOPE_MAX_LENGTH=40', '-DMC_SCOPE_MAX=40'], tag='max40')),
    'C21': dict(runs=std('c21')),
    'C22': dict(runs=std('c22') + LOCALE('c22')),
    'C24': dict(runs=R('c24', 'san', 'san11') + [r for h in ALL for r in R(h, 'san', tier='reduced', table=20)] + [r for h in ALL for r in R(h, 'san11', tier='reduced', table=20, thorough_only=True)],
                assumptions=COMMON + ['memory errors, undefined behaviour and non-termination are those the address and undefined-behaviour sanitizers and the case time limit report']),
    'C25': dict(runs=std('c25')),
    'C26': dict(runs=std('c26')),
    'C27': dict(runs=std('c27')),
    'C30': dict(runs=std('c30', 'clang11', opt='-O1')),
    'C32': dict(runs=std('c32')),
    'C23': dict(custom='c23'),
    'C28': dict(custom='c28'),
    'C31': dict(custom='c31', assumptions=COMMON + ["clang's constant evaluator computes what a program for the target computes", "the C library's headers are those of the host"]),
    'C29': dict(runs=R('c29', 'threads', 'threads11', table=22), assumptions=COMMON + ['the precompiled standard library is thread-safe as documented', 'sequentially consistent memory; data races are found by happens-before instead']),
}
for p in PLAN.values():
    p.setdefault('assumptions', COMMON)
