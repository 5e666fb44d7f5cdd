import lia
from lia import z3
from lia import K
ASSUMPTIONS = ['times from 0 to the end of the stated years; negative times are outside the documented range', 'coda_gmtime is executed over unbounded integers with exact wrap-around (engine E2); coda_msleep by CBMC']
CUM = [0, 0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334, 365]
def start(y): p = y - 1; return (365 * (y - 1970) + p // 4 - 492 - (p // 100 - 19) + p // 400 - 4) * 86400
def civil(t):
    day, r = divmod(t, 86400); y = 1970 + day // 366
    while start(y + 1) <= t: y += 1
    d = day - start(y) // 86400; leap = (y % 4 == 0 and y % 100 != 0) or y % 400 == 0; m = 1
    for k in (31, 28 + leap, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31):
        if d < k: break
        d -= k; m += 1
    return y, m, d + 1, r // 3600, r // 60 % 60, r % 60, (day + 4) % 7
def body(y0, y1):
    def run(x):
        t = x.input('t', start(y0), start(y1 + 1) - 1)
        st = x.base; tm = x.new(st, 56, 'struct tm')
        def done(st, ret):
            o = st.mem[tm.o]
            sec, mi, h, d, mo, y = [x.norm(x.cell(o, k, 4), 32, True) for k in (0, 4, 8, 12, 16, 20)]; wd = x.norm(x.cell(o, 24, 4), 32, True)
            rng = lambda v, a, b: z3.And(x.z(v) >= a, x.z(v) <= b) if v.lo < a or v.hi > b else True
            for v, a, b, n in ((sec, 0, 59, 'second'), (mi, 0, 59, 'minute'), (h, 0, 23, 'hour'), (wd, 0, 6, 'weekday'), (mo, 1, 12, 'month'), (y, y0, y1, 'year')): x.must(rng(v, a, b), n + ' out of range')
            clip = lambda v, a, b: lia.V(v.l, v.c, max(v.lo, a), min(v.hi, b))
            mo = clip(mo, 1, 12); y = clip(y, y0, y1); ym = x.add(y, K(-1))
            q4, r4 = x.divmod(y, 4); q100, r100 = x.divmod(y, 100); q400, r400 = x.divmod(y, 400)
            leap = z3.Or(z3.And(x.z(r4) == 0, x.z(r100) != 0), x.z(r400) == 0)
            p4, p100, p400 = (x.divmod(ym, k)[0] for k in (4, 100, 400))
            zmo = x.z(mo); lf = z3.If(leap, 1, 0)
            cum = z3.IntVal(334)
            for k in range(11, 0, -1): cum = z3.If(zmo == k, CUM[k], cum)
            ml = z3.If(zmo == 2, 28 + lf, z3.If(z3.Or(zmo == 4, zmo == 6, zmo == 9, zmo == 11), 30, 31))
            zd = x.z(d)
            x.must(z3.And(zd >= 1, zd <= ml), 'day of the month out of range')
            days = 365 * (x.z(y) - 1970) + (x.z(p4) - 492) - (x.z(p100) - 19) + (x.z(p400) - 4) + cum + z3.If(zmo > 2, lf, 0) + zd - 1
            day, rest = x.divmod(t, 86400)
            x.must(days == x.z(day), 'the date is not the day of the time')
            x.must(x.cmp('eq', x.add(x.add(x.scale(h, 3600), x.scale(mi, 60)), sec), rest), 'the clock is not the time of day')
            x.must(x.cmp('eq', wd, x.divmod(x.add(day, K(4)), 7)[1]), 'weekday')
            if x.check(z3.And(zmo == 2, zd == 29)) == z3.sat: x.seen.add('leap day')
            if x.check(z3.And(zmo == 12, zd == 31)) == z3.sat: x.seen.add("new year's eve"); x.sample = dict(t=x.known[-1].eval(x.z(t), model_completion=True).as_long())
        x.run(st, 'h_gmtime', [t, tm], done)
    return run
def replay(task):
    def go(R, m):
        rc, o, e = task.execute(R, 'l_gmtime_main.c', [str(m['t'])])
        if rc != 0: return True, 'exit %s %s' % (rc, e[-200:])
        w = '%d %d %d %d %d %d %d' % civil(m['t'])
        return o.strip() != w, 't=%d gives %s, expected %s' % (m['t'], o.strip(), w)
    return go
def sleep_body(x):
    ms = x.input('ms', 0, 2 ** 31 - 1)
    def nano(x, st, a, I):
        st.info['calls'] = st.info.get('calls', 0) + 1; o = st.mem[a[0].o]; sec, ns = x.norm(x.cell(o, 0, 8), 64, True), x.norm(x.cell(o, 8, 8), 64, True)
        x.must(x.cmp('eq', x.add(x.scale(sec, 1000000000), ns), x.scale(ms, 1000000)), 'another duration'); x.must(z3.And(x.z(ns) >= 0, x.z(ns) < 1000000000), 'nanoseconds out of range')
        r = x.var('ret', -1, 0); st.info['ret'] = r; return r
    x.hooks = dict(nanosleep=nano)
    def done(st, ret):
        x.must(st.info.get('calls') == 1, 'number of sleeps'); x.must(x.cmp('eq', ret, st.info['ret']), 'result of the sleep')
        if x.check(x.z(ms) > 1500) == z3.sat: x.seen.add('long')
        x.sample = dict(ms=1)
    x.run(x.base, 'h_msleep', [ms], done)
def sleep_replay(task):
    def go(R, m):
        rc, o, e = task.execute(R, 'l_msleep_main.c', [str(m['ms'])]); w = '%d %d 1' % (m['ms'] // 1000, m['ms'] % 1000 * 1000000)
        return rc != 0 or o.strip() != w, 'ms=%d requests %s, expected %s' % (m['ms'], o.strip(), w)
    return go
def tasks(tier):
    q = tier == 'quick'
    t = lia.Task('msleep', ['l_gmtime.c'], sleep_body, None, 'every non-negative int', witness=('long',)); t.replayf = sleep_replay(t); ts = [t]
    for a, b in [(1970, 1970), (1971, 1999), (2000, 2000), (2001, 2399), (2400, 9999)] + ([] if q else [(10000, 99999), (100000, 2000000)]):
        t = lia.Task('years-%d-%d' % (a, b), ['l_gmtime.c'], body(a, b), None, 'every second of the years %d to %d' % (a, b), timeout=600, witness=('leap day',) if b > 1971 else ("new year's eve",))
        t.replayf = replay(t); ts.append(t)
    return ts
