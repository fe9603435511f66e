"""The SimdArray/SimdMaskArray shapes that are analysed: (configuration, 'F<N>', element type)."""
ALL = ('float', 'double', 'int', 'uint', 'short', 'ushort')
Q = [('scalar', 3, ('float', 'short')), ('sse2', 3, ALL), ('sse41', 7, ALL), ('avx', 6, ALL), ('avx2', 5, ALL), ('avx2', 12, ('float', 'int', 'short')), ('sse2', 8, ('float', 'int', 'double')), ('sse41', 16, ('short', 'ushort')), ('avx2', 8, ('double',)), ('scalar', 4, ('int',))]
THOROUGH = Q + [('scalar', 2, ALL), ('sse2', 6, ALL), ('avx', 12, ('float', 'ushort')), ('avx2', 12, ('double', 'uint', 'ushort')), ('avx2', 1, ALL), ('avx2', 9, ('double', 'int', 'short')), ('clang-avx2', 7, ALL)]
def shapes(tier):
    return [(cfg, 'F%d' % n, t) for cfg, n, ts in (Q if tier == 'quick' else THOROUGH) for t in ts]
