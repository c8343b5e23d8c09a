"""Which sources make up the check of each property."""
import os
import vpbuild as b

R = os.path.join(b.REPO, 'src') + '/'
C = os.path.join(b.VERIF, 'checks') + '/'

# BLAS/LAPACK kernels whose accesses get announced to the race detector, and memory functions
MEMWRAP = ['memcpy', 'memmove', 'memset']

CORE = ['blas/scal.cpp', 'common/single_threaded_blas.cpp', 'communication/communicator_impl.cpp', 'communication/communicator.cpp',
        'communication/datatypes.cpp', 'memory/memory_chunk.cpp', 'memory/memory_view.cpp', 'matrix/distribution.cpp']
MATRIX = CORE + ['communication/communicator_grid.cpp', 'matrix/matrix_ref.cpp', 'matrix/tile.cpp', 'matrix.cpp', 'matrix_mirror.cpp',
                 'tune.cpp', 'init.cpp']
COMM = ['communication/kernels/%s.cpp' % k for k in ('all_reduce', 'broadcast', 'p2p', 'reduce')]

O = ['-O1']
PURE = b.BASE + ['-O1', '-g1', '-fsanitize=signed-integer-overflow,shift,integer-divide-by-zero,bounds,return', '-fsanitize-undefined-trap-on-error'] + b.INC + b.SHIM
SCHED = b.BASE + O + b.TSAN + b.INC + b.SHIM

class Check:
    def __init__(self, src, repo=(), flags=None, extra=(), wraps=MEMWRAP, libs=None, env=None, instances=(), ninstances=0, inst_flags=()):
        self.src = src
        self.repo = list(repo)
        self.flags = flags or SCHED
        self.extra = list(extra)
        self.wraps = wraps
        self.libs = libs or b.LIBS
        self.env = env or {}
        self.instances = [x if x[0] == '/' else R + x for x in instances]
        self.ninstances = ninstances
        self.inst_flags = list(inst_flags)

    def units(self):
        u = [(s, b.RT_FLAGS) for s in b.RT_SRC]
        u += [(C + s, self.flags) for s in ([self.src] if isinstance(self.src, str) else self.src)]
        u += [(R + s, self.flags) for s in self.repo]
        u += [(s if s[0] == '/' else C + s, f) for s, f in self.extra]
        u += [(s, self.flags + ['-fno-gnu-unique'] + self.inst_flags, True) for s in self.instances]
        return u

    def build(self, name):
        return b.build(name, self.units(), self.wraps, libs=self.libs, ninstances=self.ninstances)

def weight(src):
    """rough compile time, to start slow ones first"""
    for k, w in (('band_to_tridiag/mc', 70), ('tridiag_solver/mc', 55), ('reduction_to_band/mc', 40), ('/mc.cpp', 25), ('kernels/', 20), ('matrix.cpp', 13)):
        if k in src:
            return w
    return 30 if '/checks/' in src else 1

CHECKS = {}

def pure(pid, src, repo=()):
    CHECKS[pid] = Check(src, repo, PURE)

def sched(pid, src, repo=(), **kw):
    CHECKS[pid] = Check(src, repo, SCHED, **kw)

pure('P01', 'p01_util_distribution.cpp')
pure('P02', 'p02_distribution.cpp', ['matrix/distribution.cpp'])
pure('P03', 'p03_sub_distribution.cpp', ['matrix/distribution.cpp'])
pure('P04', 'p04_index2d.cpp')
pure('P05', 'p05_integers.cpp')
pure('P06', 'p06_data_descriptor.cpp')
pure('P07', 'p07_message.cpp', ['communication/datatypes.cpp'])
pure('P08', 'p08_communicator.cpp', ['communication/communicator_impl.cpp', 'communication/communicator.cpp', 'communication/datatypes.cpp'])
pure('P09', 'p09_sync.cpp', ['communication/communicator_impl.cpp', 'communication/communicator.cpp', 'communication/datatypes.cpp'])
sched('P10', 'p10_grid.cpp', MATRIX)
pure('P33', 'p33_memory.cpp', ['memory/memory_chunk.cpp', 'memory/memory_view.cpp'])
pure('P34', 'p34_blas_scope.cpp', ['common/single_threaded_blas.cpp'])
sched('P11', 'p11_pipeline.cpp', CORE)
sched('P12', 'p12_matrix.cpp', MATRIX)
sched('P13', 'p13_views.cpp', MATRIX)
sched('P15', 'p15_allocation.cpp', MATRIX)
sched('P32', 'p32_coltype.cpp', MATRIX + COMM)
sched('P35', 'p35_tile.cpp', MATRIX)
sched('P16', 'p16_comm.cpp', MATRIX + COMM)
sched('P17', 'p17_copy.cpp', MATRIX + COMM)
sched('P14', 'p14_panel.cpp', MATRIX + COMM)
sched('P28', 'p28_norm.cpp', MATRIX + COMM + ['auxiliary/norm/mc.cpp'])
sched('P31', 'p31_temp_tile.cpp', MATRIX)
sched('P42', 'p42_transform.cpp', ['common/single_threaded_blas.cpp'])
sched('P27', 'p27_permutations.cpp', MATRIX + COMM + ['permutations/general/mc.cpp'])
CHOLESKY = ['factorization/cholesky/mc.cpp']
sched('P29', 'p29_c_api.cpp', MATRIX + COMM + CHOLESKY, instances=['c_api/grid.cpp', 'c_api/utils.cpp', 'c_api/factorization/cholesky.cpp'], ninstances=4,
      inst_flags=['-DDLAF_WITH_SCALAPACK'])
sched('P30', 'p30_config.cpp', MATRIX + ['c_api/init.cpp'], instances=['init.cpp', 'memory/memory_chunk.cpp', C + 'p30_gpu.cpp'], ninstances=1,
      inst_flags=['-DDLAF_WITH_GPU', '-I' + os.path.join(b.VERIF, 'rt', 'gpu')])
sched('P18', 'p18_cholesky.cpp', MATRIX + COMM + CHOLESKY)
sched('P19', 'p19_triangular_solver.cpp', MATRIX + COMM + ['solver/triangular/mc.cpp'])
sched('P20', 'p20_multiplication.cpp', MATRIX + COMM + ['multiplication/general/mc.cpp', 'multiplication/triangular/mc.cpp', 'multiplication/hermitian/mc.cpp'])
sched('P21', 'p21_inverse.cpp', MATRIX + COMM + ['inverse/triangular/mc.cpp', 'inverse/cholesky/mc.cpp'])
sched('P22', 'p22_gen_to_std.cpp', MATRIX + COMM + ['eigensolver/gen_to_std/mc.cpp', 'multiplication/triangular/mc.cpp', 'solver/triangular/mc.cpp'])
sched('P23', 'p23_red2band.cpp', MATRIX + COMM + ['eigensolver/reduction_to_band/mc.cpp', 'eigensolver/bt_reduction_to_band/mc.cpp', 'factorization/qr/mc.cpp'])
sched('P24', 'p24_band2tridiag.cpp', MATRIX + COMM + ['eigensolver/band_to_tridiag/mc.cpp', 'eigensolver/bt_band_to_tridiag/mc.cpp'])
sched('P25', 'p25_tridiag_solver.cpp', MATRIX + COMM + ['eigensolver/tridiag_solver/mc.cpp', 'permutations/general/mc.cpp', 'multiplication/general/mc.cpp'])
EIGENSOLVER = ['eigensolver/%s/mc.cpp' % x for x in ('reduction_to_band', 'band_to_tridiag', 'tridiag_solver', 'bt_band_to_tridiag', 'bt_reduction_to_band', 'eigensolver')] + [
    'factorization/qr/mc.cpp', 'permutations/general/mc.cpp', 'multiplication/general/mc.cpp']
GEN_EIGENSOLVER = CHOLESKY + ['eigensolver/gen_to_std/mc.cpp', 'eigensolver/gen_eigensolver/mc.cpp', 'multiplication/triangular/mc.cpp', 'solver/triangular/mc.cpp']
sched('P26', 'p26_eigensolver.cpp', MATRIX + COMM + EIGENSOLVER + GEN_EIGENSOLVER)
sched('P43', 'p43_tuning.cpp', MATRIX + COMM + EIGENSOLVER + GEN_EIGENSOLVER)
sched('P36', 'p36_preconditions.cpp', MATRIX + COMM + EIGENSOLVER + GEN_EIGENSOLVER + ['inverse/cholesky/mc.cpp', 'inverse/triangular/mc.cpp', 'multiplication/hermitian/mc.cpp', 'auxiliary/norm/mc.cpp'])
sched('P37', 'p37_print.cpp', MATRIX)
sched('P40', 'p40_setters.cpp', MATRIX)
sched('P41', 'p41_kernels.cpp', MATRIX)
sched('P39', 'p39_c_solvers.cpp', MATRIX + COMM + EIGENSOLVER + GEN_EIGENSOLVER + ['inverse/cholesky/mc.cpp', 'inverse/triangular/mc.cpp'], instances=['c_api/grid.cpp', 'c_api/utils.cpp', 'c_api/eigensolver/eigensolver.cpp',
      'c_api/eigensolver/gen_eigensolver.cpp', 'c_api/inverse/cholesky.cpp'], ninstances=4, inst_flags=['-DDLAF_WITH_SCALAPACK'])
H5 = ['-DDLAF_WITH_HDF5', '-I' + os.path.join(b.RT, 'hdf5')]
P45_FLAGS = SCHED + H5 + ['-include', C + 'p45_pre.hpp']
sched('P45', [], MATRIX + COMM + ['multiplication/general/mc.cpp', 'multiplication/triangular/mc.cpp', 'solver/triangular/mc.cpp', 'permutations/general/mc.cpp', 'factorization/qr/mc.cpp',
                                  'eigensolver/bt_band_to_tridiag/mc.cpp', 'eigensolver/bt_reduction_to_band/mc.cpp'],
      extra=[('p45_hdf5.cpp', SCHED + H5), ('p45_release.cpp', SCHED + H5), (R + 'matrix/hdf5.cpp', SCHED + H5)] +
            [(R + x + '/mc.cpp', P45_FLAGS) for x in ('factorization/cholesky', 'inverse/cholesky', 'inverse/triangular', 'eigensolver/gen_to_std', 'eigensolver/reduction_to_band',
                                                      'eigensolver/band_to_tridiag', 'eigensolver/tridiag_solver', 'eigensolver/eigensolver', 'eigensolver/gen_eigensolver')])
P44_FLAGS = SCHED + ['-I' + os.path.join(b.REPO, 'miniapp', 'include')]
P44_APPS = ['triangular_solver', 'triangular_multiplication', 'gen_to_std', 'inverse_from_cholesky_factor', 'triangular_inverse', 'reduction_to_band',
            'band_to_tridiag', 'tridiag_solver', 'bt_band_to_tridiag', 'bt_reduction_to_band', 'redistribution']
sched('P44', 'p44_miniapps.cpp', MATRIX + COMM + EIGENSOLVER + GEN_EIGENSOLVER + ['multiplication/hermitian/mc.cpp', 'auxiliary/norm/mc.cpp', 'inverse/cholesky/mc.cpp', 'inverse/triangular/mc.cpp'],
      extra=[('p44_%s.cpp' % x, P44_FLAGS) for x in ('cholesky', 'eigensolver', 'gen_eigensolver')] +
            [('p44_app.cpp', P44_FLAGS + ['-DP44_NAME=' + x, '-DP44_FILE="../miniapp/miniapp_%s.cpp"' % x]) for x in P44_APPS])
