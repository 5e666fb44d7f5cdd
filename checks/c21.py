from checks.strst import tasks as _t
ASSUMPTIONS = ['allocation succeeds', 'keys follow the stated shapes: fixed bytes and arbitrary bytes at the marked positions', 'up to four additions and one further lookup']
def tasks(tier): return _t(tier, 'C21')
