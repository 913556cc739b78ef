META = {
 'level': 'model_checking',
 'finding_demo': 'demo_c14',
 'assumptions': [
  'shell quoting: byte strings of up to 2 (3 thorough) arbitrary bytes except NUL, and up to 3 (4) bytes out of 15 that represent every class of byte; text of up to 2 (3) characters, '
  'each ASCII except NUL or a lone surrogate from file name decoding, or another character below U+3000; read back by '
  'a model of the POSIX shell word syntax where \\x takes at most two hex digits (as in bash); replayed strings are '
  'also put to the installed bash',
  'completion quoting: words of up to 3 (4) bytes over quote characters, backslash, white space and two ordinary '
  'bytes; lists of up to 2 (3) words',
 ],
}
import subprocess
from sx.harness import Case, patch
from sx.num import and_, or_, implies, not_, ite
from bup import shquote
from bup.io import cmd_msg, enc_dsq, enc_dsqs, enc_sh, enc_shs, qsql_id, qsql_str

ESC = {97: 7, 98: 8, 116: 9, 110: 10, 118: 11, 102: 12, 114: 13, 101: 27, 39: 39, 92: 92, 34: 34, 69: 27, 63: 63}


def hexval(c):
    if and_(c >= 48, c <= 57): return c - 48
    if and_(c >= 97, c <= 102): return c - 87
    if and_(c >= 65, c <= 70): return c - 55
    return None


def sh_word(els):
    """What a shell makes of the characters (a list of code points): the list of
    code points (a byte that came from an escape is given as (byte,)), or a
    string saying why it isn't one plain word on one line."""
    out = []
    i, n = 0, len(els)
    if not n: return 'no word at all'
    for c in els:
        if or_(c == 10, c == 0): return 'more than a line'
    while i < n:
        c = els[i]
        if c == 39:
            i += 1
            while True:
                if i >= n: return 'unterminated'
                if els[i] == 39: break
                out.append(els[i])
                i += 1
            i += 1
            continue
        if c == 36 and i + 1 < n and els[i + 1] == 39:
            i += 2
            while True:
                if i >= n: return 'unterminated'
                if els[i] == 39: break
                if els[i] == 92:
                    if i + 1 >= n: return 'unterminated'
                    e = els[i + 1]
                    if e == 120:
                        if i + 2 >= n: return 'bad hex'
                        v = hexval(els[i + 2])
                        if v is None: return 'bad hex'
                        i += 3
                        if i < n:
                            w = hexval(els[i])
                            if w is not None:
                                v = v * 16 + w
                                i += 1
                        out.append((v,))
                        continue
                    for k in sorted(ESC):
                        if e == k:
                            out.append((ESC[k],))
                            break
                    else:
                        return 'bad escape'
                    i += 2
                    continue
                out.append(els[i])
                i += 1
            i += 1
            continue
        if or_(*[c == x for x in b'|&;<>()$`\\" \t*?[!{']): return 'unquoted special character'
        if or_(c < 32, c == 127): return 'unquoted control character'
        if i == 0 and or_(c == 35, c == 126): return 'unquoted special character'
        if c == 61: return 'unquoted ='
        out.append(c)
        i += 1
    return out


REP = b"a9\x07'\\\n\x01\x80\xff $={#~"

def c_sh(ctx, n, f, alphabet=None):
    val = ctx.bytes('val', n, exclude=b'\0') if alphabet is None else ctx.bytes('val', n, alphabet=alphabet)
    r = (enc_sh, enc_dsq)[f](val)
    w = sh_word(list(r))
    ctx.check(not isinstance(w, str), 'quoted bytes are one word on one line')
    ctx.check(len(w) == n, 'the word has the same length')
    for a, b in zip(w, val):
        ctx.check((a[0] if isinstance(a, tuple) else a) == b, 'the shell reads back the same bytes')
    for c in r:
        ctx.check(and_(c >= 32, c < 127), 'quoted bytes are printable')
    if not ctx.symbolic:
        p = subprocess.run([b'bash', b'-c', b'printf %s ' + r], stdout=subprocess.PIPE)
        assert p.stdout == val, ('bash disagrees', val, r)
    ctx.reach('quoted' if r[0] == 39 else ('dsq' if len(r) > 1 and r[0] == 36 else 'plain'))


def c_shs(ctx, n, f):
    cps = []
    for i in range(n):
        cls = ctx.choose('cls%d' % i, 3)
        cps.append(ctx.int('c%d' % i, *((1, 127), (0xdc80, 0xdcff), (0xa0, 0x2fff))[cls]))
    val = ''.join([chr(c) for c in cps])
    r = (enc_shs, enc_dsqs)[f](val)
    w = sh_word([ord(c) for c in r])
    ctx.check(not isinstance(w, str), 'quoted text is one word on one line')
    ctx.check(len(w) == n, 'the word has the same length')
    for a, c in zip(w, cps):
        if isinstance(a, tuple):
            ctx.check(or_(and_(c < 128, a[0] == c), and_(c >= 0xdc80, c <= 0xdcff, a[0] + 0xdc00 == c)),
                      'an escape stands for the original byte')
        else:
            ctx.check(and_(a == c, not_(and_(c >= 0xdc80, c <= 0xdcff))), 'the shell reads back the same character')
    ctx.reach('done')


def c_cmd(ctx, lens):
    args = [ctx.bytes('a%d' % i, n, alphabet=b"ab '\"\\$\n\x07=") for i, n in enumerate(lens)]
    r = cmd_msg(args)
    want = ' '.join([enc_shs(a.decode('ascii')) for a in args])
    ctx.check(r == want, 'a command is its quoted arguments separated by spaces')
    w = [sh_word([ord(c) for c in enc_shs(a.decode('ascii'))]) for a in args]
    for x, a in zip(w, args):
        ctx.check(not isinstance(x, str), 'an argument is a word')
        ctx.check(and_(len(x) == len(a), *[(p[0] if isinstance(p, tuple) else p) == b for p, b in zip(x, a)]), 'arguments are read back')


def c_sql(ctx, n):
    s = ''.join([chr(ctx.int('c%d' % i, 1, 127)) for i in range(n)])
    for f, q in ((qsql_id, '"'), (qsql_str, "'")):
        r = f(s)
        ctx.check(and_(r[0] == q, r[-1] == q), 'delimited')
        body, out, i = r[1:-1], [], 0
        while i < len(body):
            if body[i] == q:
                ctx.check(i + 1 < len(body) and body[i + 1] == q, 'embedded quotes are doubled')
                i += 1
            out.append(body[i])
            i += 1
        ctx.check(''.join(out) == s, 'sql reads back the same text')


ALPH = b'\'"\\ \n\x0bab'


def odd_tail(w):
    """Single quotes in this syntax can't express an odd run of backslashes before a
    single quote or the end (see known-findings.txt)."""
    run = 0
    for c in w:
        if c == 92: run += 1
        else:
            if c == 39 and run % 2: return True
            run = 0
    return run % 2 == 1


def c_quotify(ctx, n, qt):
    word = ctx.bytes('w', n, alphabet=ALPH)
    q = (b'', shquote.q, shquote.qq)[qt]
    if qt == 1 and odd_tail(word): return
    r = shquote.quotify(q, word, True)
    pre = (b'', b'x ', b' \t')[ctx.choose('pre', 3)]
    post = (b'', b' y')[ctx.choose('post', 2)]
    got = shquote.quotesplit(pre + r + post)
    want = [b'x'] * (pre == b'x ') + [word] + [b'y'] * (post == b' y')
    ctx.check(len(got) == len(want), 'same number of words')
    for (off, g), w in zip(got, want): ctx.check(g == w, 'words are read back')
    ctx.check(got[1 if pre == b'x ' else 0][0] == len(pre), 'the offset is where the word starts')
    ctx.check(shquote.unfinished_word(pre + shquote.quotify(q, word, True) + b' ') == (None, b''), 'nothing is unfinished')


def c_list(ctx, lens):
    words = [ctx.bytes('w%d' % i, n, alphabet=ALPH) for i, n in enumerate(lens)]
    r = shquote.quotify_list(words)
    got = [w for _, w in shquote.quotesplit(r)]
    ctx.check(len(got) == len(words), 'same number of words')
    for g, w in zip(got, words): ctx.check(g == w, 'words are read back')
    ctx.reach('read')


def c_complete(ctx, n, m, qt):
    """Completing an unfinished word gives the wanted word."""
    q = (b'', shquote.q, shquote.qq)[qt]
    word = ctx.bytes('w', n, alphabet=ALPH)
    new = word + ctx.bytes('more', m, alphabet=ALPH)
    if qt == 1 and (odd_tail(word) or odd_tail(new)): return
    line = b'get ' + shquote.quotify(q, word, False)
    uq, uw = shquote.unfinished_word(line)
    if not (qt == 0 and n == 0):
        ctx.check(uw == word, 'the unfinished word is recognised')
        if qt: ctx.check(uq == q, 'its quote character is recognised')
        else: ctx.check(uq is None or uq == b'', 'it is unquoted')
    line = line + shquote.what_to_add(uq, uw, new, True)
    got = shquote.quotesplit(line)
    ctx.check(len(got) == 2, 'still two words')
    ctx.check(got[1][1] == new, 'the completed word is read back')


def cases(tier):
    th = tier != 'quick'
    out = []
    for n in (3, 4) if th else (3,):
        out.append(Case('sh rep %d' % n, c_sh, ('plain', 'quoted', 'dsq'), n=n, f=0, alphabet=REP, weight=n, bounds='%d bytes of %r' % (n, REP)))
    for n in range(0, 4 if th else 3):
        out.append(Case('sh %d' % n, c_sh, ('plain', 'quoted', 'dsq') if n else (), n=n, f=0, weight=n, bounds='every %d byte string' % n))
        out.append(Case('dsq %d' % n, c_sh, ('dsq',), n=n, f=1, weight=n, bounds='every %d byte string' % n))
    for n in range(0, 4 if th else 3):
        out.append(Case('shs %d' % n, c_shs, ('done',), n=n, f=0, weight=n))
        out.append(Case('dsqs %d' % n, c_shs, ('done',), n=n, f=1, weight=n))
    for l in ((1,), (2, 1), (1, 0, 2)): out.append(Case('cmd %s' % (l,), c_cmd, lens=l))
    for n in (0, 1, 2, 3): out.append(Case('sql %d' % n, c_sql, n=n))
    for qt in (0, 1, 2):
        for n in range(1 if qt == 0 else 0, 5 if th else 4):
            out.append(Case('quotify %d %d' % (n, qt), c_quotify, n=n, qt=qt, weight=n))
        for n in range(0 , 4 if th else 3):
            for m in (1, 2) if th else (1, 2) if n < 2 else (1,):
                out.append(Case('complete %d %d %d' % (n, m, qt), c_complete, n=n, m=m, qt=qt, weight=n + m))
    for l in ((1,), (2,), (3,), (1, 1), (2, 1), (1, 2), (0, 2), (2, 0)) + (((1, 1, 1), (3, 1), (2, 2)) if th else ()):
        out.append(Case('list %s' % (l,), c_list, ('read',), lens=l, weight=sum(l)))
    return out
