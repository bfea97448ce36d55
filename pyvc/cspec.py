"""Concrete interpretation of contract formulas (plain floats, numpy arrays).  No solver needed."""
import math
import numpy as np

class CS:
    symbolic = False
    pi = math.pi
    rtol, atol = 1e-8, 1e-10
    def __init__(self, rtol=None, atol=None):
        if rtol is not None: self.rtol = rtol
        if atol is not None: self.atol = atol
    def eq(self, a, b):
        if isinstance(a, (bool, np.bool_)) or isinstance(b, (bool, np.bool_)): return bool(a) == bool(b)
        a, b = float(a), float(b)
        if math.isnan(a) or math.isnan(b): return math.isnan(a) and math.isnan(b)
        if a == b: return True
        if math.isinf(a) or math.isinf(b): return False
        return abs(a-b) <= self.atol + self.rtol*max(abs(a), abs(b))
    def close(self, a, b, scale):
        """equal up to rounding relative to the size of the terms involved"""
        a, b, scale = float(a), float(b), float(scale)
        if math.isnan(a) or math.isnan(b): return math.isnan(a) and math.isnan(b)
        return abs(a-b) <= self.atol + self.rtol*max(abs(a), abs(b), abs(scale))
    def same(self, a, b):
        if isinstance(a, (bool, np.bool_)): return bool(a) == bool(b)
        return a == b or (a != a and b != b)
    def ite(self, c, a, b): return a if c else b
    def And(self, *xs): return all(bool(x) for x in xs)
    def Or(self, *xs): return any(bool(x) for x in xs)
    def Not(self, x): return not bool(x)
    def implies(self, a, b): return (not bool(a)) or bool(b() if callable(b) else b)
    def iff(self, a, b): return bool(a) == bool(b)
    def forall(self, lo, hi, fn): return all(bool(fn(i)) for i in range(int(lo), int(hi)))
    def isnan(self, x): return x != x
    def max(self, a, b): return max(a, b)
    def min(self, a, b): return min(a, b)
    def abs(self, x): return abs(x)
    def sqrt(self, x): return math.sqrt(x)
    def cbrt(self, x): return math.copysign(abs(x)**(1/3), x)
    def pow(self, x, q): return float(x)**float(q)
    def powq(self, x, a, b): return float(x)**(a/b)
    def sin(self, x): return math.sin(x)
    def cos(self, x): return math.cos(x)
    def arctan(self, x): return math.atan(x)
    def arcsin(self, x): return math.asin(x)
    def tanh(self, x): return math.tanh(x)
    def val(self, x): return x
    def div(self, a, b): return float(a)/float(b) if b else float('nan')
    def mod(self, a, b): return a % b
