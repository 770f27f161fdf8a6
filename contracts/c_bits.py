"""Contracts of hamt/util.go: drawing child indices from a name's hash."""
from shapes import *
HM = U + '/hamt'
HB = '(*%s.hashBits).' % HM

# value of the k bits of b from bit p on, most significant first
wbits = z3.Function('wbits', BYTES, IntS, IntS, IntS)
# the hash function the package is configured with, as a function of its argument
hashof = z3.Function('hashof', BYTES, BYTES)


def bit(b, q):
    return (b[q / 8] / pow2(7 - q % 8)) % 2


def wdef(b, p, k):
    """the definition: an index is its first k-1 bits followed by its last"""
    return z3.If(k <= 0, I(0), 2 * wbits(b, p, k - 1) + bit(b, p + k - 1))


def un_wbits(e):
    """consequences of the definition (proved in lemma_bits): groups within one
    byte, the split at the next byte boundary, and the range"""
    b, p, k = e.children()
    v = b[S(p / 8)]
    out = []
    if z3.is_app(b) and b.decl().kind() == z3.Z3_OP_SEQ_EXTRACT:
        a, off, n = b.children()
        v, t = a[S(off + p / 8)], v
        out.append(z3.Implies(z3.And(p >= 0, p / 8 < n, off >= 0, off + n <= z3.Length(a)), t == v))
    inrange = z3.And(p >= 0, p + k <= 8 * z3.Length(b))
    lit = is_const_int(k)
    atom = not lit and k.num_args() == 0     # a width the code names (the rest after a split is not split again)
    for o in range(8):
        l = 8 - o
        for w in range(1, 9 - o):
            if atom or lit and k.as_long() == w:
                out.append(z3.Implies(z3.And(inrange, p % 8 == o, k == w), e == (v / I(2 ** (8 - o - w))) % I(2 ** w)))
        if atom:
            sub = wbits(b, S(p + l), S(k - l))
            out.append(z3.Implies(z3.And(p >= 0, p % 8 == o, k > l, k <= 62), e == shl(wbits(b, p, I(l)), S(k - l)) + sub))
    out.append(z3.Implies(inrange, z3.And(e >= 0, e < (I(2 ** k.as_long()) if lit else pow2(k)))))
    out.append(z3.Implies(z3.And(p >= 0, p / 8 < z3.Length(b)), z3.And(v >= 0, v < 256)))
    return out


UNFOLD['wbits'] = un_wbits
SPECFN.update(shl=shl, wbits=wbits, pow2=pow2, hashof=hashof)


def lemma_bits():
    b = z3.Const('b', BYTES)
    p, k, l, v, m = z3.Ints('p k l v m')
    out = []
    # split: wbits(p, k+l) = wbits(p, k)*2^l + wbits(p+k, l), by induction on l
    A = z3.Int('pl')     # 2^l
    ih = wbits(b, p, k + l) == wbits(b, p, k) * A + wbits(b, p + k, l)
    d1 = wbits(b, p, k + l + 1) == 2 * wbits(b, p, k + l) + bit(b, p + k + l)
    d2 = wbits(b, p + k, l + 1) == 2 * wbits(b, p + k, l) + bit(b, p + k + l)
    out.append(('split: no bits', [wbits(b, p + k, 0) == 0, l == 0], wbits(b, p, k + l) == wbits(b, p, k) * 1 + wbits(b, p + k, 0)))
    out.append(('split: step', [k >= 0, l >= 0, A >= 1, ih, d1, d2], wbits(b, p, k + l + 1) == wbits(b, p, k) * (2 * A) + wbits(b, p + k, l + 1)))
    # range, by induction on k
    out.append(('range: step', [k >= 0, A >= 1, wbits(b, p, k) >= 0, wbits(b, p, k) < A, m == bit(b, p + k)], z3.And(2 * wbits(b, p, k) + m >= 0, 2 * wbits(b, p, k) + m < 2 * A)))
    # groups within one byte, by induction on the width
    for o in range(8):
        for w in range(0, 8 - o):
            have = (v / I(2 ** (8 - o - w))) % I(2 ** w) if w else I(0)
            out.append(('byte: bits %d to %d' % (o, o + w), [v >= 0, v < 256, wbits(b, p, w) == have, m == (v / I(2 ** (7 - o - w))) % 2],
                        2 * wbits(b, p, w) + m == (v / I(2 ** (7 - o - w))) % I(2 ** (w + 1))))
    return out


LEMMAS.append(('bit groups', lemma_bits))


@model('math/bits.TrailingZeros', 'math/bits.TrailingZeros64')
def m_tz(E, st, args, ins):
    r = z3.Int(fresh_name('tz'))
    x = args[0]
    st.assume(r >= 0, r <= 64, z3.Implies(x == 0, r == 64), z3.Implies(x != 0, r < 64))
    for k in range(64):
        st.assume(z3.Implies(r == k, z3.And(x % I(2 ** k) == 0, (x / I(2 ** k)) % 2 == 1)))
        st.assume(z3.Implies(x == 2 ** k, r == k))
    return [(st, r)]


def fv_hash(E, st, ins, callee, args):
    """internal.HAMTHashFunction: a function of the bytes it is given"""
    return [(st, E.new_bytes(st, hashof(E.bytes_of(st, args[0])), 'hash'))]


FUNCVAR['func(val []byte) []byte'] = fv_hash


@specfn
def ispow2(v):
    return z3.Or(*[v == 2 ** k for k in range(63)])


@specfn
def hseq(hb):
    """the hash"""
    return hb.E.bytes_of(hb.E.cur, hb.b.v)


Contract(HB + 'next', 'hb i', 'r', requires=['hb != None', 'hb.consumed >= 0', '1 <= i and i <= 62', ('enough', 'hb.consumed + i <= 8 * seqlen(hb.b)')],
         modifies=['hb.consumed'], rank='i', group='bits',
         ensures=[('consecutive', 'r == old(wbits(hseq(hb), hb.consumed, i)) and hb.consumed == old(hb.consumed) + i'), ('width', 'r == old(wbits(hseq(hb), hb.consumed, i)) and 0 <= r and r < pow2(i)')])
Contract(HB + 'Next', 'hb i', 'r err', requires=['hb != None', '0 <= hb.consumed and hb.consumed < 2**60', '1 <= i and i <= 62'],
         modifies=['hb.consumed'],
         ensures=[('exhausted', '(err == None) == old(hb.consumed + i <= 8 * seqlen(hb.b))'),
                  ('consecutive', 'implies(err == None, r == old(wbits(hseq(hb), hb.consumed, i)) and hb.consumed == old(hb.consumed) + i)'),
                  ('width', 'implies(err == None, r == old(wbits(hseq(hb), hb.consumed, i)) and 0 <= r and r < pow2(i))'),
                  ('kept', 'implies(err != None, hb.consumed == old(hb.consumed))')])
Contract(HM + '.newHashBits', 'val', 'r', ensures=[('hash', 'fresh(r) and hseq(r) == hashof(val) and r.consumed == 0')])
Contract(HM + '.newConsumedHashBits', 'val consumed', 'r', ensures=[('hash', 'fresh(r) and hseq(r) == hashof(val) and r.consumed == consumed')])
Contract(HM + '.Logtwo', 'v', 'r err', ensures=[('accepts', '(err == None) == ispow2(v)'), ('error', 'not notexist(err)'), ('logarithm', 'implies(err == None, 0 <= r and r < 63 and pow2(r) == v)')])
