"""The published formulas of the test problems, written once, for any number
system m (m.D exact decimal text, m.pi, sin, cos, exp, log, sqrt, abs, ite, le,
sum, prod).  x is the list of coordinates of one point.  Used by the proofs
(checks/C24, C25: code == formula), the runtime contracts (IEEE doubles) and the
interval analysis of C26."""

HA3 = (('3.0', '10.0', '30.0'), ('0.1', '10.0', '35.0'), ('3.0', '10.0', '30.0'), ('0.1', '10.0', '35.0'))
HP3 = (('0.3689', '0.117', '0.2673'), ('0.4699', '0.4387', '0.747'), ('0.1091', '0.8732', '0.5547'),
       ('0.03815', '0.5743', '0.8828'))
HA6 = (('10', '3', '17', '3.5', '1.7', '8'), ('0.05', '10', '17', '0.1', '8', '14'), ('3', '3.5', '1.7', '10', '17', '8'),
       ('17', '8', '0.05', '10', '0.1', '14'))
HP6 = (('0.1312', '0.1696', '0.5569', '0.0124', '0.8283', '0.5886'), ('0.2329', '0.4135', '0.8307', '0.3736', '0.1004', '0.9991'),
       ('0.2348', '0.1451', '0.3522', '0.2883', '0.3047', '0.6650'), ('0.4047', '0.8828', '0.8732', '0.5743', '0.1091', '0.0381'))
HC = ('1', '1.2', '3', '3.2')


def forrester(m, x):
    x, = x
    return (6 * x - 2) ** 2 * m.sin(12 * x - 4)


def branin_uv(m, u, v):
    return ((v - m.D('5.1') / (4 * m.pi ** 2) * u ** 2 + 5 / m.pi * u - 6) ** 2
            + 10 * (1 - 1 / (8 * m.pi)) * m.cos(u) + 10)


def branin(m, x):
    return branin_uv(m, x[0], x[1])


def goldprice(m, x):
    a, b = x
    return ((1 + (a + b + 1) ** 2 * (19 - 14 * a + 3 * a ** 2 - 14 * b + 6 * a * b + 3 * b ** 2))
            * (30 + (2 * a - 3 * b) ** 2 * (18 - 32 * a + 12 * a ** 2 + 48 * b - 36 * a * b + 27 * b ** 2)))


def sixhump(m, x):
    a, b = x
    return (4 - m.D('2.1') * a ** 2 + a ** 4 / 3) * a ** 2 + a * b + (-4 + 4 * b ** 2) * b ** 2


def sasena(m, x):
    a, b = x
    return (2 + m.D('0.01') * (b - a ** 2) ** 2 + (1 - a) ** 2 + 2 * (2 - b) ** 2
            + 7 * m.sin(m.D('0.5') * a) * m.sin(m.D('0.7') * a * b))


def hartman(m, x, a, p, c, l=None):
    r = m.D('0')
    for i in range(4):
        q = m.D('0')
        for j in range(len(x)):
            t = x[j] if l is None else m.D(l[j]) * x[j]
            q = q + m.D(a[i][j]) * (t - m.D(p[i][j])) ** 2
        r = r + m.D(c[i]) * m.exp(-q)
    return -r


def hartman3(m, x):
    return hartman(m, x, HA3, HP3, HC)


def hartman6(m, x):
    return -m.log(-hartman(m, x, HA6, HP6, HC))


def branin_1(m, x):
    return branin_uv(m, 15 * x[0] - 5, 15 * x[1]) + 5 * x[0]


def branin_1_cons(m, x):
    return m.D('0.2') - x[0] * x[1]


def branin_2_cons(m, x):
    a, b = 2 * x[0] - 1, 2 * x[1] - 1
    return 6 - ((4 - m.D('2.1') * a ** 2 + a ** 4 / 3) * a ** 2 + a * b + (-4 + 4 * b ** 2) * b ** 2
                + 3 * m.sin(6 * (1 - a)) + 3 * m.sin(6 * (1 - b)))


def ackley_n2(m, x):
    return -200 * m.exp(-m.D('0.2') * m.sqrt(x[0] ** 2 + x[1] ** 2))


# ---- any dimension: x(j) is coordinate j of d
def ackley(m, x, d, a, b, c):
    return (-a * m.exp(-b * m.sqrt(m.sum(d, lambda j: x(j) ** 2) / d))
            - m.exp(m.sum(d, lambda j: m.cos(c * x(j))) / d) + a + m.exp(m.D('1')))


def thevenot(m, x, d, mm, beta):
    return (m.exp(-m.sum(d, lambda j: m.pow(x(j) / beta, 2 * mm)))
            - 2 * m.exp(-m.prod(d, lambda j: x(j) ** 2)) * m.prod(d, lambda j: m.cos(x(j)) ** 2))


# ---- multi-fidelity
def forrester_1a_lf(m, x):
    return forrester(m, x) - 5


def forrester_1b_lf(m, x):
    return m.D('0.5') * forrester(m, x) + 10 * (x[0] - m.D('0.5')) - 5


def forrester_1c_lf(m, x):
    return forrester(m, [x[0] + m.D('0.2')])


def hartman3_lf(m, x):
    a, b, c = x
    D = m.D
    return (D('0.585') - D('0.324') * a - D('0.379') * b - D('0.431') * c - D('0.208') * a * b + D('0.326') * a * c
            + D('0.193') * b * c + D('0.225') * a ** 2 + D('0.263') * b ** 2 + D('0.274') * c ** 2)


def sixhump_lf(m, x):
    return sixhump(m, [m.D('0.7') * x[0], m.D('0.7') * x[1]]) - x[0] * x[1] - 15


def hartman6_lf(m, x):
    return -m.log(-hartman(m, x, HA6, HP6, ('1.1', '0.8', '2.5', '3'), ('0.75', '1', '0.8', '1.3', '0.7', '1.1')))


def discontinuous_lf(m, x):
    base = m.D('0.5') * forrester(m, x) + 10 * (x[0] - m.D('0.5')) - 5
    return m.ite(m.le(x[0], m.D('0.5')), base, 3 + base)


def discontinuous(m, x):
    v = 2 * discontinuous_lf(m, x) - 20 * x[0] + 20
    return m.ite(m.le(x[0], m.D('0.5')), v, 4 + v)


def nonlinear1d_lf(m, x):
    return m.sin(8 * m.pi * x[0])


def nonlinear1d(m, x):
    return (x[0] - m.sqrt(m.D('2'))) * nonlinear1d_lf(m, x) ** 2


def phase_lf(m, x):
    return m.sin(8 * m.pi * x[0])


def phase(m, x):
    return x[0] ** 2 + m.sin(8 * m.pi * x[0] + m.pi / 10) ** 2


def bohachevsky(m, x):
    a, b = x
    return (a ** 2 + 2 * b ** 2 - m.D('0.3') * m.cos(3 * m.pi * a) - m.D('0.4') * m.cos(4 * m.pi * b) + m.D('0.7'))


def bohachevsky_lf(m, x):
    return bohachevsky(m, [m.D('0.7') * x[0], x[1]]) + x[0] * x[1] - 12


def booth(m, x):
    a, b = x
    return (a + 2 * b - 7) ** 2 + (2 * a + b - 5) ** 2


def booth_lf(m, x):
    return booth(m, [m.D('0.4') * x[0], x[1]]) + m.D('1.7') * x[0] * x[1] - x[0] + 2 * x[1]


def borehole_ab(m, x, a, b):
    rw, r, tu, hu, tl, hl, le, kw = x
    q = m.log(r / rw)
    return a * tu * (hu - hl) / (q * (b + 2 * le * tu / (q * rw ** 2 * kw) + tu / tl))


def borehole(m, x):
    return borehole_ab(m, x, 2 * m.pi, m.D('1'))


def borehole_lf(m, x):
    return borehole_ab(m, x, m.D('5'), m.D('1.5'))


def currin(m, x):
    a, b = x
    # the limit 1 of 1 - exp(-1/(2b)) for b -> 0+; below 1e-8 the two agree in double precision
    z = m.le(b, m.D('1e-8'))
    t = m.ite(z, m.D('1'), 1 - m.exp(-1 / (2 * m.ite(z, m.D('1'), b))))
    return t * (2300 * a ** 3 + 1900 * a ** 2 + 2092 * a + 60) / (100 * a ** 3 + 500 * a ** 2 + 4 * a + 20)


def currin_lf(m, x):
    a, b = x
    h = m.D('0.05')
    lo = m.ite(m.le(b - h, m.D('0')), m.D('0'), b - h)
    return (currin(m, [a + h, b + h]) + currin(m, [a + h, lo]) + currin(m, [a - h, b + h]) + currin(m, [a - h, lo])) / 4


def himmelblau(m, x):
    a, b = x
    return (a ** 2 + b - 11) ** 2 + (a + b ** 2 - 7) ** 2


def himmelblau_lf(m, x):
    return himmelblau(m, [m.D('0.5') * x[0], m.D('0.8') * x[1]]) + x[1] ** 3 - (x[0] + 1) ** 2


def park91a(m, x):
    a, b, c, d = x
    return (m.sqrt(a ** 2 + (b + c ** 2) * d) - a) / 2 + (a + 3 * d) * m.exp(1 + m.sin(c))


def park91a_lf(m, x):
    return (1 + m.sin(x[0]) / 10) * park91a(m, x) - 2 * x[0] + x[1] ** 2 + x[2] ** 2 + m.D('0.5')


def park91b(m, x):
    a, b, c, d = x
    return 2 * m.exp(a + b) / 3 - d * m.sin(c) + c


def park91b_lf(m, x):
    return m.D('1.2') * park91b(m, x) - 1


SF = 'mfpml.problems.sf_functions'
SC = 'mfpml.problems.sf_cons_functions'
MF = 'mfpml.problems.mf_functions'
# class -> (module, dimension, {method: formula})
SINGLE = {
    'Forrester': (SF, 1, {'f': forrester}),
    'Branin': (SF, 2, {'f': branin}),
    'GoldPrice': (SF, 2, {'f': goldprice}),
    'Sixhump': (SF, 2, {'f': sixhump}),
    'Sasena': (SF, 2, {'f': sasena}),
    'Hartman3': (SF, 3, {'f': hartman3}),
    'Hartman6': (SF, 6, {'f': hartman6}),
    'AckleyN2': (SF, 2, {'f': ackley_n2}),
    'Branin_1': (SC, 2, {'f': branin_1, 'f_cons': branin_1_cons}),
    'Branin_2': (SC, 2, {'f': branin_1, 'f_cons': branin_2_cons}),
}
MULTI = {
    'Forrester_1a': (MF, 1, {'hf': forrester, 'lf': forrester_1a_lf}),
    'Forrester_1b': (MF, 1, {'hf': forrester, 'lf': forrester_1b_lf}),
    'Forrester_1c': (MF, 1, {'hf': forrester, 'lf': forrester_1c_lf}),
    'mf_Hartman3': (MF, 3, {'hf': hartman3, 'lf': hartman3_lf}),
    'mf_Sixhump': (MF, 2, {'hf': sixhump, 'lf': sixhump_lf}),
    'mf_Hartman6': (MF, 6, {'hf': hartman6, 'lf': hartman6_lf}),
    'mf_Discontinuous': (MF, 1, {'hf': discontinuous, 'lf': discontinuous_lf}),
    'ContinuousNonlinearCorrelation1D': (MF, 1, {'hf': nonlinear1d, 'lf': nonlinear1d_lf}),
    'PhaseShiftedOscillations': (MF, 1, {'hf': phase, 'lf': phase_lf}),
    'mf_Bohachevsky': (MF, 2, {'hf': bohachevsky, 'lf': bohachevsky_lf}),
    'mf_Booth': (MF, 2, {'hf': booth, 'lf': booth_lf}),
    'mf_Borehole': (MF, 8, {'hf': borehole, 'lf': borehole_lf}),
    'mf_CurrinExp': (MF, 2, {'hf': currin, 'lf': currin_lf}),
    'mf_Himmelblau': (MF, 2, {'hf': himmelblau, 'lf': himmelblau_lf}),
    'mf_Park91A': (MF, 4, {'hf': park91a, 'lf': park91a_lf}),
    'mf_Park91B': (MF, 4, {'hf': park91b, 'lf': park91b_lf}),
}
# declared domains (rows: low, high) as published
BOX = {
    'Forrester': [(0, 1)], 'Branin': [(-5, 10), (0, 15)], 'GoldPrice': [(-2, 2)] * 2, 'Sixhump': [(-3, 3), (-2, 2)],
    'Sasena': [(0, 5)] * 2, 'Hartman3': [(0, 1)] * 3, 'Hartman6': [(0, 1)] * 6, 'AckleyN2': [(-32, 32)] * 2,
    'Branin_1': [(0, 1)] * 2, 'Branin_2': [(0, 1)] * 2,
    'Forrester_1a': [(0, 1)], 'Forrester_1b': [(0, 1)], 'Forrester_1c': [(0, 1)], 'mf_Hartman3': [(0, 1)] * 3,
    'mf_Sixhump': [(-2, 2)] * 2, 'mf_Hartman6': [(0, 1)] * 6, 'mf_Discontinuous': [(0, 1)],
    'ContinuousNonlinearCorrelation1D': [(0, 1)], 'PhaseShiftedOscillations': [(0, 1)], 'mf_Bohachevsky': [(-5, 5)] * 2,
    'mf_Booth': [(-10, 10)] * 2,
    'mf_Borehole': [('0.05', '0.15'), (100, 50000), (63070, 115600), (990, 1110), ('63.1', 116), (700, 820), (1120, 1680),
                    (9855, 12045)],
    'mf_CurrinExp': [(0, 1)] * 2, 'mf_Himmelblau': [(-4, 4)] * 2, 'mf_Park91A': [(0, 1)] * 4, 'mf_Park91B': [(0, 1)] * 4,
}
# declared optima: (value, points)
OPT = {
    'Forrester': ('-6.020740', [('0.757248757841856',)]),
    'Branin': ('0.397887', [('-pi', '12.275'), ('pi', '2.275'), ('9.42478', '2.475')]),
    'GoldPrice': ('3.0', [('0', '-1')]),
    'Sixhump': ('-1.0316', [('0.0898', '-0.7126'), ('-0.0898', '0.7126')]),
    'Sasena': ('-1.4565', [('2.5044', '2.5778')]),
}
