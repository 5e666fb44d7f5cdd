from core import T
ASSUMPTIONS = ['allocation succeeds except where stated']
S = ['coda/base64.c']
def tasks(tier):
    ns = range(0, 8) if tier == 'quick' else list(range(0, 17)) + [24, 33]
    ts = []
    for n in ns:
        ts.append(T('encode-%d' % n, 'h_b64.c', S, dict(WEB=0, MODE=0, N=n), unwind=n * 2 + 10, bounds='every %d-byte input, every output capacity 0..%d' % (n, (n + 2) // 3 * 4 + 2)))
        ts.append(T('roundtrip-%d' % n, 'h_b64.c', S, dict(WEB=0, MODE=1, N=n), unwind=n * 2 + 10, bounds='every %d-byte input' % n))
    ts.append(T('sizes', 'h_b64.c', S, dict(WEB=0, MODE=4, N=0), unwind=2, bounds='every 64-bit input length (allocation refused)'))
    return ts
