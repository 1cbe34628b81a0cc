"""The checks: which harnesses decide which property."""

import c29

DEFAULT_TECHNIQUE = ('property-based testing: generated cases, explicit oracle, '
                     'ASan+UBSan, shrinking')
DEFAULT_NOTE = ('Held on every generated case of the run (counts in the '
                'evidence file). Trusts the harness oracle, clang and its '
                'sanitizers; says nothing about cases that were not generated.')


def H(name, sources=None, **kw):
    d = dict(name=name, sources=sources or [name + '.cpp'])
    d.update(kw)
    return d


def LONG(n):
    return H('long_session_%d' % n, ['long_session.cpp'], extra=['-DLONG_MODE=%d' % n])


VS_TECHNIQUE = ('property-based testing of concurrent code: generated programs '
                'and generated schedules (controlled scheduler, drawn '
                'pre-emptions at synchronization and memory-access points), '
                'model oracle, race and deadlock detection, shrinking')
VS_NOTE = ('Held on every generated program and schedule of the run (counts in '
           'the evidence file). Sequentially consistent interleavings only; '
           'weaker memory orders are covered by race detection. Trusts the '
           'scheduler (engine/vsched.cpp), the oracle and clang.')

CHECKS = {
    'C01': dict(harnesses=[H('c01_framing')]),
    'C02': dict(harnesses=[H('c02_ignore')]),
    'C03': dict(harnesses=[H('c03_close')]),
    'C04': dict(harnesses=[H('c04_robust'),
                           H('c04_robust_rapid', ['c04_robust.cpp'], backend='rapid'),
                           H('c04_robust_jsoncpp', ['c04_robust.cpp'], backend='jsoncpp')]),
    'C05': dict(harnesses=[H('c05_roundtrip', backend='multi')]),
    'C06': dict(harnesses=[H('c06_interop', backend='multi')]),
    'C07': dict(harnesses=[H('c07_typed', backend='multi')]),
    'C08': dict(harnesses=[H('c08_protocol', ['c08_protocol.cpp'] +
                             ['c08_part%d.cpp' % k for k in range(8)], opt='-O0')]),
    'C09': dict(harnesses=[H('c09_futures', kind='vs'), LONG(9)], technique=VS_TECHNIQUE, note=VS_NOTE),
    'C10': dict(harnesses=[H('c10_dispatch', kind='vs'), LONG(10)], technique=VS_TECHNIQUE, note=VS_NOTE),
    'C11': dict(harnesses=[H('c11_sends', kind='vs'), LONG(11)], technique=VS_TECHNIQUE, note=VS_NOTE),
    'C12': dict(harnesses=[H('c12_responses', kind='vs'), LONG(12)], technique=VS_TECHNIQUE, note=VS_NOTE),
    'C13': dict(harnesses=[H('c13_close', kind='vs')], technique=VS_TECHNIQUE, note=VS_NOTE),
    'C14': dict(harnesses=[H('c14_destroy', kind='vs')], technique=VS_TECHNIQUE, note=VS_NOTE),
    'C15': dict(harnesses=[H('c15_failing', kind='vs')], technique=VS_TECHNIQUE, note=VS_NOTE),
    'C16': dict(harnesses=[H('c16_misuse', kind='vs')], technique=VS_TECHNIQUE, note=VS_NOTE),
    'C17': dict(harnesses=[H('c17_any')]),
    'C18': dict(harnesses=[H('c18_optional')]),
    'C19': dict(harnesses=[H('c19_future', kind='vs')], technique=VS_TECHNIQUE, note=VS_NOTE),
    'C20': dict(harnesses=[H('c20_chan', kind='vs')], technique=VS_TECHNIQUE, note=VS_NOTE),
    'C21': dict(harnesses=[H('c21_rwmutex', kind='vs')], technique=VS_TECHNIQUE, note=VS_NOTE),
    'C22': dict(harnesses=[H('c22_pipe', kind='vs')], technique=VS_TECHNIQUE, note=VS_NOTE),
    'C23': dict(harnesses=[H('c23_streams'), H('c23_race', kind='vs')]),
    'C24': dict(harnesses=[H('c24_sim', kind='vs'),
                           H('c24_real', ['net_real.cpp'], extra=['-DNET_MODE=24'])], technique=VS_TECHNIQUE, note=VS_NOTE),
    'C25': dict(harnesses=[H('c25_sim', kind='vs'),
                           H('c25_real', ['net_real.cpp'], extra=['-DNET_MODE=25'])], technique=VS_TECHNIQUE, note=VS_NOTE),
    'C26': dict(harnesses=[H('c26_sim', kind='vs'),
                           H('c26_real', ['net_real.cpp'], extra=['-DNET_MODE=26'])], technique=VS_TECHNIQUE, note=VS_NOTE),
    'C27': dict(harnesses=[H('c27_race', kind='vs'),
                           H('c27_life', kind='gcc', opt='-O0')],
                technique=VS_TECHNIQUE, note=VS_NOTE),
    'C28': dict(harnesses=[H('c28_lastwrite', backend='multi')]),
    'C30': dict(harnesses=[H('c30_encode', backend='multi'),
                           H('c30_session', kind='vs')],
                technique=VS_TECHNIQUE, note=VS_NOTE),
    'C31': dict(harnesses=[H('c31_reentrant', kind='vs')], technique=VS_TECHNIQUE, note=VS_NOTE),
    'C32': dict(harnesses=[H('c32_values')]),
    'C33': dict(harnesses=[H('c33_sessions', kind='vs')], technique=VS_TECHNIQUE, note=VS_NOTE),
    'C34': dict(harnesses=[H('c34_tcp', kind='vs')], technique=VS_TECHNIQUE, note=VS_NOTE),
    'C35': dict(harnesses=[H('c35_pull', kind='vs')], technique=VS_TECHNIQUE, note=VS_NOTE),
    'C29': dict(custom=c29.main,
                technique='property-based testing: generated schemas given to the real generator, the '
                          'emitted code compiled and run against a model of the mapping, metamorphic '
                          'regeneration, shrinking'),
}
