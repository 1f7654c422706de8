# property -> parts of its check
COMMON_ASSUMPTIONS = [
    'the compiler and the C and C++ runtime libraries are correct; 64-bit little-endian Linux build with POSIX threads, as configured by the repository here',
    'threads interleave at synchronisation operations only (sequentially consistent between them); unsynchronised accesses are caught by the vector-clock race detector in the "race" builds',
]
NOT_APPLICABLE = {}
FOS = ('open open64 close read write pread pwrite pread64 pwrite64 lseek lseek64 ftruncate ftruncate64 truncate truncate64 '
       'fstat fstat64 fcntl fcntl64 mmap mmap64 munmap remove unlink rename').split()
CHECKS = {
    'I08': dict(parts=[dict(src=['I08.cpp'], cc=['-fno-access-control'], wrap=FOS + ['syscall'], defs=['-DATOMIC=false']), dict(src=['I08.cpp'], cc=['-fno-access-control'], wrap=FOS + ['syscall'], variant='race', defs=['-DATOMIC=true'])]),
    'I07': dict(parts=[dict(src=['I07.cpp'], cc=['-fno-access-control', '-Wno-deprecated-declarations'], defs=['-DATOMIC=false']), dict(src=['I07.cpp'], cc=['-fno-access-control', '-Wno-deprecated-declarations'], variant='race', defs=['-DATOMIC=true'])]),
    'I06': dict(parts=[dict(src=['I06.cpp'], cc=['-fno-access-control'], wrap=FOS)]),
    'I05': dict(parts=[dict(src=['I05.cpp'], cc=['-fno-access-control'], wrap=FOS)]),
    'I04': dict(parts=[dict(src=['I04.cpp'], cc=['-fno-access-control'], defs=['-DATOMIC=false']), dict(src=['I04.cpp'], cc=['-fno-access-control'], variant='race', defs=['-DATOMIC=true'])]),
    'I03': dict(parts=[dict(src=['I03.cpp'], cc=['-fno-access-control', '-fsanitize-address-use-after-scope']), dict(src=['I03.cpp'], cc=['-fno-access-control'], variant='race')]),
    'I02': dict(parts=[dict(src=['I02.cpp'], cc=['-fno-access-control'], defs=['-DATOMIC=false']), dict(src=['I02.cpp'], cc=['-fno-access-control'], variant='race', defs=['-DATOMIC=true'])]),
    'I01': dict(parts=[dict(src=['I01.cpp'], cc=['-fno-access-control'], defs=['-DATOMIC=false']), dict(src=['I01.cpp'], cc=['-fno-access-control'], variant='race', defs=['-DATOMIC=true'])]),
    'U04': dict(parts=[dict(src=['U04.cpp']), dict(src=['U04.cpp'], variant='race', defs=['-DTHREADS=1'])]),
    'U07': dict(parts=[dict(src=['U07.cpp'])]),
    'U05': dict(parts=[dict(src=['U05.cpp']), dict(src=['U05.cpp'], defs=['-DMERGERS', '-DSTXXL_PARALLEL_PQ_MULTIWAY_MERGE_INTERNAL=0'])]),
    'U01': dict(parts=[dict(src=['U01.cpp'])]),
    'U02': dict(parts=[dict(src=['U02.cpp'])]),
    'U03': dict(parts=[dict(src=['U03.cpp'])]),
    'M07': dict(parts=[dict(src=['M07.cpp'], cc=['-fno-access-control'], wrap=['unlink'])]),
    'M06': dict(parts=[dict(src=['M06.cpp']), dict(src=['M06.cpp'], variant='race', defs=['-DRACE=1'])]),
    'M04': dict(parts=[dict(src=['M04.cpp'])]),
    'M03': dict(parts=[dict(src=['M03.cpp'])]),
    'M05': dict(parts=[dict(src=['M05.cpp'])]),
    'M02': dict(parts=[dict(src=['M02.cpp'])]),
    'M01': dict(parts=[dict(src=['M01.cpp']), dict(src=['M01.cpp'], variant='race', defs=['-DTHREADS=1'])]),
    'S02': dict(parts=[dict(src=['S02.cpp'])]),
    'S01': dict(parts=[dict(src=['S01.cpp'], defs=['-DNDISKS=2']), dict(src=['S01.cpp'], defs=['-DNDISKS=1'])]),
    'C12': dict(parts=[dict(src=['C12.cpp'])]),
    'A04': dict(parts=[dict(src=['A04.cpp'])]),
    'A03': dict(parts=[dict(src=['A03.cpp'])]),
    'A05': dict(parts=[dict(src=['A05.cpp'])]),
    'A02': dict(parts=[dict(src=['A02.cpp'])]),
    'A01': dict(parts=[dict(src=['A01.cpp'])]),
    'C10': dict(parts=[dict(src=['C10.cpp'])]),
    'C09': dict(parts=[dict(src=['C09.cpp'], cc=['-DSTXXL_DEFAULT_BLOCK_SIZE(type)=8192'])]),
    'C08': dict(parts=[dict(src=['C08.cpp'])]),
    'C07': dict(parts=[dict(src=['C07.cpp'])]),
    'C06': dict(parts=[dict(src=['C06.cpp'], cc=['-DSTXXL_DEFAULT_BLOCK_SIZE(type)=8192'])]),
    'C05': dict(parts=[dict(src=['C05.cpp'])]),
    'C04': dict(parts=[dict(src=['C04.cpp'])]),
    'C03': dict(parts=[dict(src=['C03.cpp'])]),
    'C01': dict(parts=[dict(src=['C01.cpp'])]),
    'U06': dict(parts=[dict(src=['U06.cpp'], variant='race', lib=True)]),
}
