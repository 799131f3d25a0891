class TestCase(object):
    def setUp(self):
        pass

    def tearDown(self):
        pass

    def fail(self, msg=None):
        raise AssertionError(msg)

    def assertTrue(self, x, msg=None):
        if not x:
            raise AssertionError('not true')

    def assertFalse(self, x, msg=None):
        if x:
            raise AssertionError('not false')

    def assertEqual(self, a, b, msg=None):
        if not (a == b or _close(a, b)):
            raise AssertionError('not equal', a, b)
    assertEquals = assertEqual

    def assertNotEqual(self, a, b, msg=None):
        if not a != b:
            raise AssertionError('equal')
    assertNotEquals = assertNotEqual

    def assertAlmostEqual(self, a, b, places=7, msg=None):
        if a == b:
            return
        if round(abs(a - b), places) != 0:
            raise AssertionError('not almost equal', a, b)
    assertAlmostEquals = assertAlmostEqual

    def assertRaises(self, exc, fn, *args, **kwargs):
        try:
            fn(*args, **kwargs)
        except exc:
            return
        raise AssertionError('not raised')


def _close(a, b):
    import numbers
    from decimal import Decimal
    if isinstance(a, (Decimal, float)) and isinstance(b, (Decimal, float, int)):
        return abs(Decimal(a) - Decimal(b)) < Decimal('0.0000000001')
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)) and len(a) == len(b):
        return all(_close(x, y) or x == y for x, y in zip(a, b))
    return False
