"""The properties and what decides them."""

TRUSTED = ['front/astdump.cpp: extraction of the function bodies with clang 18 (mechanical, every run)',
           'vcg/engine.py: the verification condition generator', 'vcg/lib: contracts of the C++ standard library, boost, Eigen and the logger',
           'z3 4.8/cvc5 1.1 as back ends']
ASSUMPTIONS = ['single threaded execution of the function under contract',
               'integers are mathematical with exact wrap-around for unsigned types; signed overflow is not checked unless listed',
               'floating point numbers are treated as mathematical reals; float literals as the decimal they print as',
               'allocation does not fail; library calls terminate; loops terminate (partial correctness)',
               'log statements have no effect on the program state',
               'VITAL_FOREACH is taken in its range-for configuration']

NOTE = ('Every function named in the evidence file is verified against its contract for all inputs, callers against callee contracts, loops by invariants that are '
        'inferred as candidates and then proved. Trusted: clang extraction, the verification condition generator with its library models, z3/cvc5. Floating point is treated as '
        'real arithmetic. A seeded run of the same contract as executable oracle on the real code (address and undefined behaviour sanitizers) accompanies the proof; it is bounded and not counted as proved.')
PROPS = {}


def prop(pid, **kw):
    kw.setdefault('level', 'proof')
    PROPS[pid] = kw

TRACK_SRCS = ['vital/types/track.cxx', 'vital/types/track_set.cxx', 'vital/types/feature.cxx', 'EXC', 'LOGGER', 'KWSYS']
prop('C12', specs=['track'], harness=[dict(src='track.cpp', repo=TRACK_SRCS)])
prop('C13', specs=['track_set'], harness=[dict(src='track.cpp', repo=TRACK_SRCS)])
prop('C09', specs=['timestamp'], harness=[dict(src='timestamp.cpp', repo=['vital/types/timestamp.cxx'])])
CB_SRCS = ['vital/config/config_block.cxx', 'vital/config/config_block_exception.cxx']
CBH = [dict(src='config_block.cpp', repo=CB_SRCS + ['EXC', 'LOGGER', 'KWSYS'])]
for _p in ('C01', 'C02', 'C03', 'C04', 'C05'):
    prop(_p, specs=['config_block'], harness=CBH)
IMG = [dict(src='image.cpp', repo=['vital/types/image.cxx'])]
prop('C10', specs=['image'], harness=IMG)
prop('C11', specs=['image', 'image_memory'], harness=IMG)
SMALL = [dict(src='small.cpp', repo=['vital/types/geo_lat_lon.cxx'])]
prop('C19', specs=['tokenize'], harness=SMALL)
prop('C20', specs=['geo'], harness=SMALL)
CBIND = [dict(src='cbind.cpp', repo=['vital/bindings/c/%s.cxx' % f for f in ('common', 'error_handle', 'helpers/c_utils', 'config_block', 'algorithm', 'camera', 'camera_map', 'track', 'track_set', 'image', 'image_container')]
               + CB_SRCS + ['CONFIGIO', 'TRACKS', 'CAMERA', 'vital/types/image.cxx', 'vital/io/track_set_io.cxx', 'vital/io/camera_io.cxx', 'vital/algo/algorithm.cxx', 'vital/registrar.cxx', 'EXC', 'LOGGER', 'KWSYS'])]
prop('C22', specs=['cbind_cache'], harness=CBIND)
prop('C23', specs=['cbind_mem', 'cbind_calls'], harness=CBIND)
ALGO = [dict(src='algo.cpp', repo=['vital/algo/%s.cxx' % f for f in ('algorithm', 'image_io', 'filter_features')] + ['vital/registrar.cxx', 'vital/types/feature.cxx', 'vital/types/image.cxx'] + CB_SRCS + ['EXC', 'LOGGER', 'KWSYS'])]
prop('C27', specs=['image_io'], harness=ALGO)
prop('C28', specs=['filter_features'], harness=ALGO)
TOKEN = ['vital/config/%s.cxx' % f for f in ('token_expander', 'token_type', 'token_type_symtab', 'token_type_env', 'token_type_config')]
prop('C08', specs=['token_expander'], harness=[dict(src='token.cpp', repo=TOKEN + CB_SRCS + ['EXC', 'LOGGER', 'KWSYS'])])
LIN = ['vital/types/rotation.cxx', 'vital/types/similarity.cxx', 'EXC', 'LOGGER', 'KWSYS']
prop('C15', specs=['rotation'], harness=[dict(src='linear.cpp', repo=LIN)])
VALUES = [dict(src='values.cpp', repo=['vital/types/feature.cxx', 'vital/types/landmark.cxx', 'EXC', 'LOGGER', 'KWSYS'])]
prop('C14', specs=['covariance'], harness=VALUES)
prop('C26', specs=['values'], harness=VALUES)
prop('C16', specs=['homography'], harness=[dict(src='homography.cpp', repo=['vital/types/homography.cxx', 'vital/types/homography_f2f.cxx', 'vital/types/homography_f2w.cxx', 'EXC', 'LOGGER', 'KWSYS'])])
prop('C17', specs=['camera'], harness=[dict(src='camera.cpp', repo=['CAMERA', 'EXC', 'LOGGER', 'KWSYS'])])
prop('C25', specs=['epipolar'], harness=[dict(src='epipolar.cpp', repo=['vital/types/essential_matrix.cxx', 'vital/types/fundamental_matrix.cxx', 'vital/types/rotation.cxx', 'EXC', 'LOGGER', 'KWSYS'])])
prop('C24', specs=['algorithm'], harness=[dict(src='algorithm.cpp', repo=['vital/algo/algorithm.cxx', 'vital/registrar.cxx'] + CB_SRCS + ['EXC', 'LOGGER', 'KWSYS'])])
prop('C18', specs=['enumerate'], harness=[dict(src='enumerate.cpp', repo=[])])
prop('C29', specs=['paths'], harness=[dict(src='paths.cpp', repo=['KWSYS'])])
CFGIO = [dict(src='configio.cpp', repo=['CONFIGIO', 'vital/config/config_block.cxx', 'vital/config/config_block_exception.cxx', 'EXC', 'LOGGER', 'KWSYS'])]
prop('C06', specs=['config_parser', 'config_io'], harness=CFGIO)
prop('C07', specs=['config_io', 'config_writer'], harness=CFGIO)
