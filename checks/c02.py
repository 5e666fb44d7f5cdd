from core import T
ASSUMPTIONS = ['allocation succeeds']
S = ['coda/base64.c']
def tasks(tier):
    ns = list(range(0, 10)) + [12] if tier == 'quick' else list(range(0, 17)) + [20, 24]
    ts = [T('decode-%d' % n, 'h_b64.c', S, dict(WEB=0, MODE=2, N=n), unwind=n * 2 + 10, bounds='every %d-byte text, every capacity 0..%d' % (n, n // 4 * 3 + 3)) for n in ns]
    return ts + [T('alphabet', 'h_b64.c', S, dict(WEB=0, MODE=3, N=0), unwind=2, bounds='every byte')]
