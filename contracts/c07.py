"""C07 marginalising, combining and correlating counts"""
from contracts.common import *
from pyvc.core import short

reg = Registry('C07')
reg.assumptions += ['counts treated as mathematical reals (integers are a special case)']


def count(v, name):
    """a count: any real number (mitigated counts are fractional and may be negative)"""
    if v.symbolic:
        return v.real(name, -100, 1000)
    return v.int(name, 0, 9) if v.choice('int_counts', [True, False]) else v.real(name, -3, 9)
D = IG + 'verification.tomography.data'
U = IG + 'utils'


def spaced(keys, n, cut):
    """keys of two classical registers: a blank after the leftmost ``cut`` bits"""
    return {k: (k[:cut] + ' ' + k[cut:] if 0 < cut < n else k) for k in keys}


def spec_marginal(counts, n, bits):
    out = {}
    for k, c in counts.items():
        k = k.replace(' ', '')
        kk = ''.join(k[n - 1 - b] for b in sorted(bits, reverse=True))
        out[kk] = out.get(kk, 0) + c
    return out


def some_bits(v, n):
    if n > 6:
        return [int(b) for b in nprng(v).permutation(n)[:v.choice('k', [1, 2, 3, 5])]]
    k = v.choice('k', list(range(1, n + 1)))
    return list(v.choice('bits', list(itertools.permutations(range(n), k))))


@reg.contract(D + ':marginal_counts', mode='S', sizes=[{'n': 1}, {'n': 2}],
              rsizes=[{'n': n} for n in (1, 2, 3, 4, 6, 11, 13)], mods=[D], samples=25)
def marginal(v, n):
    """marginal_counts(counts, bits, pad_zeros)"""
    from qiskit.ignis.verification.tomography.data import marginal_counts
    if n > 6:
        r = nprng(v)
        base = {''.join(str(b) for b in r.randint(2, size=n)): int(r.randint(1, 1000)) for _ in range(14)}
    else:
        base = {k: count(v, 'c_' + k) for k in bitstrings(n)}
    m = spaced(base, n, v.choice('cut', list(range(n))))
    if n > 3 and v.choice('three', [0, 1]):        # three registers
        m = {k: k[:1] + ' ' + k[1:3] + ' ' + k[3:] for k in base}
    counts = {m[k]: c for k, c in base.items()}
    if not v.symbolic:
        counts = drop_zeros(counts)
        v.require(len(counts) > 0)
    before = dict(counts)
    pad = v.choice('pad', [False, True])
    how = v.choice('how', ['default', 'list', 'tuple', 'range'] if n <= 6 else ['list', 'tuple'])
    if how == 'default' and pad and n > 6:
        pad = False
    if how == 'default':
        bits = list(range(n))
        res = marginal_counts(counts, pad_zeros=pad)
    elif how == 'range':
        k = v.choice('kr', list(range(1, n + 1)))
        bits = list(range(k))
        res = marginal_counts(counts, range(k), pad_zeros=pad)
    else:
        bits = some_bits(v, n)
        res = marginal_counts(counts, tuple(bits) if how == 'tuple' else list(bits), pad_zeros=pad)
    spec = spec_marginal(counts, n, bits)
    v.ensure('keys are outcomes of the selected bits', set(res) <= set(bitstrings(len(bits))), lambda: short((bits, res)))
    for k in bitstrings(len(bits)):
        v.ensure_eq('every shot is counted under the outcome of the selected bits', res.get(k, 0), spec.get(k, 0))
    v.ensure_eq('total preserved', sum(res.values()), sum(counts.values()))
    if not pad:
        v.ensure('only outcomes that were counted, unless padding', set(res) <= set(spec), lambda: short((res, spec)))
    if pad:
        v.ensure('all outcomes present when padding', set(res) == set(bitstrings(len(bits))))
    v.ensure('argument unchanged', v.eq(counts, before))
    v.ensure('result is a new dictionary', res is not counts)


@reg.contract(D + ':marginal_counts (three bits)', mode='S', sizes=[{'bits': list(b)} for k in (1, 2) for b in itertools.permutations(range(3), k)],
              rsizes=[], mods=[D], samples=0)
def marginal3(v, bits):
    """marginal_counts on three bits, every selection, padded"""
    from qiskit.ignis.verification.tomography.data import marginal_counts
    counts = {k: count(v, 'c_' + k) for k in bitstrings(3)}
    res = marginal_counts(counts, bits, pad_zeros=True)
    spec = spec_marginal(counts, 3, bits)
    v.ensure('all outcomes', set(res) == set(spec))
    for k in spec:
        v.ensure_eq('every shot is counted under the outcome of the selected bits', res[k], spec[k])


@reg.contract(D + ':marginal_counts (nesting)', mode='S', sizes=[{'n': 3}], rsizes=[{'n': 4}], mods=[D], samples=20)
def marginal_twice(v, n):
    """selecting B and then positions A of it is selecting A of B at once"""
    from qiskit.ignis.verification.tomography.data import marginal_counts
    counts = {k: count(v, 'c_' + k) for k in bitstrings(n)}
    b = list(v.choice('b', [c for c in itertools.combinations(range(n), 2)]))
    a = v.choice('a', [[0], [1]])
    r1 = marginal_counts(marginal_counts(counts, b, pad_zeros=True), a, pad_zeros=True)
    r2 = marginal_counts(counts, [b[i] for i in a], pad_zeros=True)
    v.ensure('marginals nest', v.eq(r1, r2))


def two_dicts(v, n, hi=9):
    """two dictionaries over arbitrary subsets of the keys"""
    out = []
    for nm in 'ab':
        d = {}
        for k in bitstrings(n):
            if v.choice('%s_has_%s' % (nm, k), [True, False]):
                d[k] = count(v, '%s_%s' % (nm, k))
        out.append(d)
    return out


@reg.contract(D + ':combine_counts', mode='S', sizes=[{'n': 1}], rsizes=[{'n': 1}, {'n': 2}, {'n': 3}], samples=25)
def combine(v, n):
    """combine_counts(a, b)"""
    from qiskit.ignis.verification.tomography.data import combine_counts
    a, b = two_dicts(v, n)
    a0, b0 = dict(a), dict(b)
    res = combine_counts(a, b)
    v.ensure('keys are the union', set(res) == set(a0) | set(b0), lambda: short((a0, b0, res)))
    for k in res:
        v.ensure_eq('key-wise sum', res[k], a0.get(k, 0) + b0.get(k, 0))
    v.ensure('first argument unchanged', v.eq(a, a0) and set(a) == set(a0))
    v.ensure('second argument unchanged', v.eq(b, b0) and set(b) == set(b0))
    # histories: the result can be combined again without disturbing anything
    res2 = combine_counts(res, b)
    for k in res2:
        v.ensure_eq('second combination is key-wise', res2[k], a0.get(k, 0) + 2 * b0.get(k, 0))
        v.ensure_eq('first result undisturbed', res[k], a0.get(k, 0) + b0.get(k, 0))


@reg.contract(D + ':count_keys', mode='S', sizes=[{'n': n} for n in range(1, 9)], samples=1)
def keys(v, n):
    """count_keys(n): every bit string once, in numerical order"""
    from qiskit.ignis.verification.tomography.data import count_keys
    v.ensure('all strings in order', list(count_keys(n)) == bitstrings(n))
    r = count_keys(n)
    r.append('x')
    v.ensure('fresh list every time', list(count_keys(n)) == bitstrings(n))


@reg.contract(D + ':expectation_counts', mode='S', sizes=[{'n': 1}, {'n': 2}, {'n': 3}], rsizes=[{'n': n} for n in (1, 2, 3, 4, 5)],
              mods=[D], samples=12)
def correlations(v, n):
    """expectation_counts(counts)[s] is the sum of (-1)^(parity of the bits
    selected by s) times the counts; all-zeros key holds the shots"""
    from qiskit.ignis.verification.tomography.data import expectation_counts
    if n > 6:
        r = nprng(v)
        base = {''.join(str(b) for b in r.randint(2, size=n)): int(r.randint(1, 1000)) for _ in range(14)}
    else:
        base = {k: count(v, 'c_' + k) for k in bitstrings(n)}
    m = spaced(base, n, v.choice('cut', list(range(n))))
    if n > 3 and v.choice('three', [0, 1]):        # three registers
        m = {k: k[:1] + ' ' + k[1:3] + ' ' + k[3:] for k in base}
    counts = {m[k]: c for k, c in base.items()}
    if not v.symbolic:
        counts = drop_zeros(counts)
        v.require(len(counts) > 0)
    before = dict(counts)
    res = expectation_counts(counts)
    v.ensure('one entry per operator', set(res) == set(bitstrings(n)), lambda: short(res))
    for s in bitstrings(n):
        tot = 0
        for k, c in base.items():
            par = sum(1 for x, y in zip(s, k) if x == '1' and y == '1') % 2
            tot = tot + (-c if par else c)
        v.ensure_eq('signed sum of the counts', res[s], tot)
    v.ensure('argument unchanged', v.eq(counts, before))


@reg.contract(U + ':build_counts_dict_from_list', mode='S', sizes=[{'m': 1}, {'m': 2}, {'m': 3}], rsizes=[{'m': m} for m in (1, 2, 3, 6)], samples=15)
def build(v, m):
    """build_counts_dict_from_list: key-wise sum over the list"""
    from qiskit.ignis.utils import build_counts_dict_from_list
    ds = []
    for i in range(m):
        ds.append({k: count(v, 'c%d_%s' % (i, k)) for k in '01'
                   if v.choice('has%d_%s' % (i, k), [True, False])})
    old = [dict(d) for d in ds]
    res = build_counts_dict_from_list(ds)
    v.ensure('keys are the union', set(res) == set().union(*[set(d) for d in old]))
    for k in res:
        v.ensure_eq('key-wise sum', res[k], sum(d.get(k, 0) for d in old))
    v.ensure('arguments unchanged', all(set(a) == set(b) and v.eq(a, b) for a, b in zip(ds, old)))


# ----------------------------------------------------------- any size
from contracts import ulib as UL

reg.contract(D + ':combine_counts (any dictionaries)', **UL.U)(UL.any_combine)
reg.contract(U + ':build_counts_dict_from_list (any list)', **UL.U)(UL.any_count_list)
