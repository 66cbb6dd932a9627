"""What the coefficient-list operations are, for every length."""

def derivative(p):
    return [i * p[i] for i in range(1, len(p))]

def value(p, x):
    return sum([p[i] * x ** i for i in range(len(p))])

def product(p, q):
    return [sum([p[j] * q[k - j] for j in range(len(p)) if 0 <= k - j and k - j < len(q)])
            for k in range(len(p) + len(q) - 1)]
