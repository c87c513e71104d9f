"""operation names of lib/mapprogs.py (importable without peak)"""
ARCH_OPS = {
    'alu': ['dbl', 'add', 'rsub', 'nand', 'xnor', 'or', 'andn', 'inc', 'not', 'id', 'neg'],
    'imm': ['add', 'sub', 'andn', 'inc', 'm5', 'r7', 'neg', 'zero', 'isz', 'addk', 'subk', 'const', 'or', 'nand', 'kind', 'kind2'],
    'union': ['add', 'and', 'inc', 'id', 'const', 'addk', 'two', 'sub', 'm5'],
    'sum': ['add', 'sub', 'rsub', 'add3', 'inc', 'm5', 'not', 'id', 'const', 'addk', 'subk', 'and'],
    'plain': ['mux', 'lsb', 'id', 'add', 'not'],
    'signed': ['sshr', 'slt', 'sadd' , 'add'],
    'bits': ['bimp', 'bboth', 'lsb'],
    'cdata': ['inc', 'm5', 'r7', 'neg', 'addk', 'subk', 'const', 'add', 'not'],
    'enumd': ['enum', 'id', 'add'],
    'twok': ['addk5', 'subk', 'addk', 'xork', 'subk6', 'm5', 'kx3', 'const'],
    'udata': ['id', 'inc', 'pairid', 'notb', 'lsb'],
    'lsum': ['inc', 'not', 'neg', 'id', 'const', 'addk', 'subk', 'xork', 'm5'],
    'reg': ['dbl', 'p3', 'inc', 'id', 'add', 'subk', 'm3', 'x5m3'],
}
BB_OPS = {
    'chain': ['f', 'box', 'ff', 'nf', 'fn', 'fff', 'add', 'not', 'same'],
    'nested': ['g', 'gk', 'gxx', 'gh', 'h0', 'h1', 'f', 'add'],
    'forms': ['ex', 'fk', 'np', 'exp', 'f', 'not'],
}


def arch_ops(tier, seed, n):
    """the architectures above and n random ones (10 times as many in the thorough tier)"""
    out = dict(ARCH_OPS)
    for i in range(n if tier == 'quick' else 10 * n):
        k = f'rnd{seed}.{i}'
        out[k] = [f'{k}.o{j}' for j in range(4)]
    return out
