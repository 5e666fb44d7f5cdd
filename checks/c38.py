from path import P
ASSUMPTIONS = ['the parser delivers well-formed streams of events (expat itself is outside)', 'sequences of sequences and names with prefixes are outside', 'booleans are whole words of the vocabulary; fractional numbers are converted by the C library and not checked']
W = 'XML_ParserCreate XML_ParserFree XML_SetUserData XML_SetUnknownEncodingHandler XML_SetElementHandler XML_SetStartElementHandler XML_SetEndElementHandler XML_SetCharacterDataHandler XML_Parse XML_ErrorString XML_GetErrorCode XML_GetCurrentLineNumber XML_GetCurrentColumnNumber'.split()
CD = dict(VP_STRCAP=15, VP_VECCAP=8, VP_DEQCAP=8)
def mk(pre, names, atts, ev): return P('ev-%s-%s-%s-%d' % (pre.replace('.', '_'), names, atts, ev), 'h_txml.cpp', ['coda/txml.cpp'], dict(MODE=0, PREFIX='"%s"' % pre, NAMES='"%s"' % names, ATTS='"%s"' % atts, EV=ev), cdefs=CD, wraps=W, libs=['-lexpat'], bounds='a root, the events %s, then any %d of text, end, start of an element of %s%s, or the end or a syntax error' % (pre or 'none', ev, ', '.join(names), ' with an optional attribute of ' + ', '.join(atts) if atts else ''), timeout=800)
def tasks(tier):
    q = tier == 'quick'
    t = [mk('', 'avz', '', 4), mk('o', 'xz', '', 4), mk('i1x1', 'xi', '', 4), mk('', 'oiv', 'xk', 2), mk('i', 'kz', 'k', 3), mk('a1', 'az', 'a', 3), mk('', 'v', 'v', 3),
         P('bool', 'h_txml.cpp', ['coda/txml.cpp'], dict(MODE=1), cdefs=CD, wraps=W, libs=['-lexpat'], bounds='every word of the vocabulary, any case of its first three letters, in one or two chunks')]
    t.append(P('numbers', 'h_txml.cpp', ['coda/txml.cpp'], dict(MODE=3), cdefs=dict(CD, VP_STRCAP=31), wraps=W, libs=['-lexpat'], bounds='members of every integer type: all numbers of up to two digits, and those around the ends of each type, in one or two chunks', timeout=800))
    for n in ((0, 4, 9) if q else range(0, 13)): t.append(P('file-%d' % n, 'h_txml.cpp', ['coda/txml.cpp'], dict(MODE=2, N=n), cdefs=CD, wraps=W + 'fopen fread feof ferror fclose'.split(), libs=['-lexpat'], subs=((r'#define BUFSZ 4096', '#define BUFSZ 4'),), bounds='every file of %d bytes read in blocks of 4; opening, any read or any parse failing' % n))
    return t if q else t + [mk('', 'avoi', '', 5), mk('i1.i', 'xk', 'x', 3), mk('', 'oi', 'xk', 3), mk('o1x', 'xoz', '', 5)]
