import numpy as np

def bench1(x):
    return x[0] ** 2

def bench1_with_time(x):
    return (x[0] ** 2, 2.22)

def bench2(x):
    if x[0] < 0:
        return x[0] ** 2
    else:
        return (x[0] - 5) ** 2 - 5

def bench3(x):
    return np.sin(5 * x[0]) * (1 - np.tanh(x[0] ** 2))

def bench4(x):
    return float(x[0]) ** 2

def bench5(x):
    return float(x[0]) ** 2 + x[1] ** 2

def branin(x, a=1, b=5.1 / (4 * np.pi ** 2), c=5.0 / np.pi, r=6, s=10, t=1.0 / (8 * np.pi)):
    return a * (x[1] - b * x[0] ** 2 + c * x[0] - r) ** 2 + s * (1 - t) * np.cos(x[0]) + s

def hart6(x, alpha=np.asarray([1.0, 1.2, 3.0, 3.2]), P=10 ** (-4) * np.asarray([[1312, 1696, 5569, 124, 8283, 5886], [2329, 4135, 8307, 3736, 1004, 9991], [2348, 1451, 3522, 2883, 3047, 6650], [4047, 8828, 8732, 5743, 1091, 381]]), A=np.asarray([[10, 3, 17, 3.5, 1.7, 8], [0.05, 10, 17, 0.1, 8, 14], [3, 3.5, 1.7, 10, 17, 8], [17, 8, 0.05, 10, 0.1, 14]])):
    return -np.sum(alpha * np.exp(-np.sum(A * (np.array(x) - P) ** 2, axis=1)))
