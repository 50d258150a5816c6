"""Which programs decide which property, and where the code under test lies."""
INCLUDES = [
    'scalopus_interface/include', 'scalopus_interface/include_consumer',
    'scalopus_transport/include', 'scalopus_transport/src',
    'scalopus_general/include', 'scalopus_general/include_consumer', 'scalopus_general/src',
    'scalopus_tracing/include', 'scalopus_tracing/include_consumer', 'scalopus_tracing/src',
    'scalopus_tracing/src/lttng/include', 'scalopus_tracing/src/native/include', 'scalopus_tracing/src/nop/include',
    'scalopus_tracing/src/lttng', 'scalopus_tracing/src/native', 'scalopus_tracing/src/nop',
    'scalopus_catapult/include', 'scalopus_catapult/src',
]
LIBS = {
    'interface': ['scalopus_interface/src/*.cpp'],
    'transport': ['scalopus_transport/src/*.cpp'],
    'general': ['scalopus_general/src/*.cpp'],
    'tracing': ['scalopus_tracing/src/*.cpp'],
    'lttng': ['scalopus_tracing/src/lttng/*.cpp', '!scalopus_tracing/src/lttng/lttng_tracepoint.cpp', '!scalopus_tracing/src/lttng/scope_tracepoint_lttng.cpp'],
    'tplttng': ['scalopus_tracing/src/lttng/lttng_tracepoint.cpp', 'scalopus_tracing/src/lttng/scope_tracepoint_lttng.cpp'],
    'native': ['scalopus_tracing/src/native/*.cpp'],
    'nop': ['scalopus_tracing/src/nop/*.cpp'],
    'catapult': ['scalopus_catapult/src/*.cpp', '!scalopus_catapult/src/scalopus_catapult_server.cpp'],
}
IT = ['interface', 'transport']
PROPS = {}
NOTES = {}

def prop(pid, *progs, **kw):
    PROPS[pid] = dict(progs=list(progs), **kw)

def mc(name, src, libs=(), **kw):
    return dict(kind='mc', name=name, src=[src] if isinstance(src, str) else src, libs=list(libs), **kw)

def en(name, src, libs=(), **kw):
    return dict(kind='en', name=name, src=[src] if isinstance(src, str) else src, libs=list(libs), **kw)

prop('P09', mc('ring', 'h/ring.cpp'), en('ring_seq', 'h/ring_seq.cpp'))
prop('P01', mc('p01', 'h/p01.cpp', IT))
prop('P02', mc('p02', 'h/p02.cpp', IT))
prop('P03', mc('p03', 'h/p03.cpp', IT))
prop('P04', mc('p04', 'h/p04.cpp', IT))
prop('P05', mc('p05', 'h/p05.cpp', IT))
prop('P06', mc('p06', 'h/p06.cpp', IT))
prop('P07', mc('p07', 'h/p07.cpp', IT))
prop('P08', mc('p08', 'h/p08.cpp', IT))
prop('P14', mc('p14', 'h/p14.cpp', IT + ['general']))
prop('P20', mc('p20', 'h/p20.cpp', IT + ['general']))
prop('P15', mc('p15', 'h/p15.cpp', IT + ['general']))
TP = ['interface', 'general', 'tracing']
prop('P11', mc('p11_lttng', 'h/p11.cpp', TP + ['tplttng'], flags=['-DTP_LTTNG']), mc('p11_native', 'h/p11.cpp', TP + ['native'], flags=['-DTP_NATIVE']))
prop('P12', mc('p12', 'h/p12.cpp', IT + ['general', 'tracing', 'nop']))
prop('P13', mc('p13', 'h/p13.cpp', IT + ['general', 'tracing', 'tplttng'], flags=['-DTP_LTTNG']))
P23SRC = ['h/p23.cpp', 'h/p23b.cpp', 'h/p23c.cpp']
prop('P23', mc('p23_lttng', P23SRC, TP + ['tplttng'], flags=['-DTP_LTTNG']), mc('p23_native', P23SRC, TP + ['native'], flags=['-DTP_NATIVE']))
prop('P16', en('p16', 'h/p16.cpp', ['lttng']))
SRCS = ['interface', 'general', 'tracing', 'lttng']
prop('P19', mc('p19_lttng', 'h/p19.cpp', SRCS), mc('p19_native', 'h/p19n.cpp', SRCS + ['native']))
prop('P17', mc('p17', 'h/p17.cpp', SRCS))
prop('P18', mc('p18', 'h/p18.cpp', SRCS + ['native']))
prop('P24', mc('p24', 'h/p24.cpp', IT + ['general', 'tracing', 'nop']))
prop('P10', mc('p10', 'h/p10.cpp', IT + ['general', 'tracing', 'lttng', 'native'], flags=['-DTP_NATIVE']))
prop('P21', mc('p21', 'h/p21.cpp', ['interface', 'catapult']), mc('p21s', 'h/p21s.cpp', ['interface', 'catapult']))
prop('P22', mc('p22', 'h/p22.cpp', ['interface', 'catapult']))
prop('P25', dict(kind='py', name='p25', src=['h/p25.py'], libs=[]))
prop('P26', en('p26', 'h/p26.cpp', SRCS))
prop('P27', dict(kind='py', name='p27', src=['h/p27.py'], libs=[]))
prop('P28', mc('p28', 'h/p28.cpp', IT + ['general', 'tracing', 'nop']))
prop('P29', en('p29', 'h/p29.cpp', IT))
prop('P30', mc('p30', 'h/p30.cpp', IT + ['general', 'tracing', 'lttng', 'native', 'catapult'], locales=['de_DE', 'hi_IN']))
prop('P31', mc('p31', 'h/p31.cpp', IT + ['general', 'tracing', 'lttng', 'native', 'catapult']))
