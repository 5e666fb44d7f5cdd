from core import T
ASSUMPTIONS = []
S = ['coda/web64.c']
def tasks(tier):
    q = tier == 'quick'; ts = []
    for n in (range(0, 8) if q else list(range(0, 17)) + [24]):
        ts.append(T('encode-%d' % n, 'h_b64.c', S, dict(WEB=1, MODE=0, N=n), unwind=n * 2 + 10, bounds='every %d-byte input, every output capacity 0..%d' % (n, (n + 2) // 3 * 4 + 2)))
        ts.append(T('roundtrip-%d' % n, 'h_b64.c', S, dict(WEB=1, MODE=1, N=n), unwind=n * 2 + 10, bounds='every %d-byte input' % n))
    for n in (list(range(0, 10)) + [12] if q else list(range(0, 17)) + [20, 24]):
        ts.append(T('decode-%d' % n, 'h_b64.c', S, dict(WEB=1, MODE=2, N=n), unwind=n * 2 + 10, bounds='every %d-byte text, every capacity 0..%d' % (n, n // 4 * 3 + 3)))
    return ts
