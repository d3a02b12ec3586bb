"""C10: a zero numerator stops the evaluation."""
from engine.terms import *
from checks.c08 import L, seqs, nonempty
from checks.c09 import STOP

MIN = 6

def run(ck):
    for la, lb in ((1, 1), (2, 1), (1, 2)):
        A, B, A2, B2 = seqs(la, 'a'), seqs(lb, 'b'), seqs(lb, 'c'), seqs(la, 'd')
        a = [A, B, A2, B2, sym('T', 'num'), sym('acc', 'num'), sym('base', 'num'), sym('coeff', 'num'), sym('N', 'int')]
        g = nonempty(A, B, A2, B2)
        for n, m in ((0, 0), (1, 1), (2, 2), (3, 1)):
            ck.same('zero numerator/%d interlaced a, %d interlaced b, %d then %d iterations' % (la, lb, n, m), ck.interp(), STOP % {'n': n, 'm': m},
                    a, given=g, rule='evaluation stops with the zero-numerator exception iff some b_i (1 <= i <= n) is zero')
