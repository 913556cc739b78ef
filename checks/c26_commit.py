META = {
 'level': 'model_checking',
 'assumptions': [
  'identities of the form NAME <MAIL> with no NUL, newline, < or > in either part (git cannot represent those); '
  'dates are whole seconds within 10**12 of the epoch (git itself cannot represent those before it), zone offsets whole minutes within 99:59',
  'in the local-zone case strftime("%z") is replaced by an arbitrary +-HHMM value',
 ],
}
from sx.harness import Case, patch
from sx.num import and_, or_, not_, implies, ite
from bup import commit as cm

HEX = b'0123456789abcdef'
ID = b'\0\n<>'

def hexed(b):
    return b.hex().encode('ascii') if isinstance(b, bytes) else cm.hexlify(b)

def offset(ctx, name):
    """A whole-minute offset as (seconds, printed form)."""
    hh = ctx.int(name + '_h', 0, 99, math=True)
    mm = ctx.int(name + '_m', 0, 59, math=True)
    neg = ctx.flag(name + '_neg')
    secs = (hh * 60 + mm) * 60
    if neg: ctx.assume(secs > 0)
    return (-secs if neg else secs), (b'-' if neg else b'+') + b'%02d%02d' % (hh, mm)

def expect(ctx, c, blob, tree, parent, author, committer, asec, aoff, csec, coff, msg):
    ctx.check(c.tree == hexed(tree), 'tree decodes')
    ctx.check(len(c.parents) == (1 if parent is not None else 0), 'number of parents')
    if parent is not None: ctx.check(c.parents[0] == hexed(parent), 'parent decodes')
    ctx.check(and_(c.author_name == author[0], c.author_mail == author[1]), 'author decodes')
    ctx.check(and_(c.committer_name == committer[0], c.committer_mail == committer[1]), 'committer decodes')
    ctx.check(and_(c.author_sec == asec, c.author_offset == aoff), 'author date decodes')
    ctx.check(and_(c.committer_sec == csec, c.committer_offset == coff), 'committer date decodes')
    ctx.check(c.message == msg, 'message decodes')
    ctx.check(c.gpgsig is None, 'no signature appears')

def canonical(tree, parent, author, ad, committer, cd, msg):
    """The commit object git itself would write."""
    r = b'tree ' + hexed(tree) + b'\n'
    if parent is not None: r += b'parent ' + hexed(parent) + b'\n'
    r += b'author ' + author[0] + b' <' + author[1] + b'> ' + ad + b'\n'
    r += b'committer ' + committer[0] + b' <' + committer[1] + b'> ' + cd + b'\n'
    return r + b'\n' + msg

def build(ctx, tree, parent, a, c, asec, aoff, csec, coff, msg):
    return cm.create_commit_blob(tree, parent, a[0] + b' <' + a[1] + b'>', asec, aoff,
                                 c[0] + b' <' + c[1] + b'>', csec, coff, msg)

T, P = bytes(range(20)), bytes(range(100, 120))

def c_ids(ctx, parent):
    tree = ctx.bytes('tree', 20)
    par = ctx.bytes('parent', 20) if parent else None
    a, c = (b'A U Thor', b'a@b'), (b'C', b'c@d')
    blob = build(ctx, tree, par, a, c, 5, 0, 6, 3600, b'm\n')
    ctx.check(blob == canonical(tree, par, a, b'5 +0000', c, b'6 +0100', b'm\n'), 'well-formed commit')
    expect(ctx, cm.parse_commit(blob), blob, tree, par, a, c, 5, 0, 6, 3600, b'm\n')
    ctx.reach('done')

def c_ident(ctx, which, n, m, parent):
    name = ctx.bytes('name', n, exclude=ID)
    mail = ctx.bytes('mail', m, exclude=ID)
    a, c = (b'A U Thor', b'a@b'), (b'C', b'c@d')
    if which == 'author': a = (name, mail)
    else: c = (name, mail)
    par = P if parent else None
    blob = build(ctx, T, par, a, c, 5, 0, 6, -60, b'm')
    ctx.check(blob == canonical(T, par, a, b'5 +0000', c, b'6 -0001', b'm'), 'well-formed commit')
    expect(ctx, cm.parse_commit(blob), blob, T, par, a, c, 5, 0, 6, -60, b'm')
    ctx.reach('done')

def c_dates(ctx, local, which, digits):
    asec, csec, aoff, coff, astr, cstr = 1234567890, 987654321, -16200, 0, b'-0430', b'+0000'
    sec = ctx.int('sec', 10**(digits - 1) if digits > 1 else 0, 10**digits - 1, math=True)
    if ctx.flag('before'):
        ctx.assume(sec > 0)
        sec = -sec
    off, str_ = offset(ctx, 'tz')
    if which == 'author': asec, aoff, astr = sec, off, str_
    else: csec, coff, cstr = sec, off, str_
    seen = []
    if local:
        def utc_offset_str(t):
            seen.append(t)
            return astr if len(seen) == 1 else cstr
        patch(cm, 'utc_offset_str', utc_offset_str)
    a, c = (b'A', b'a@b'), (b'C', b'c@d')
    none = None if local else 0
    blob = build(ctx, T, P, a, c, asec, None if local else aoff, csec, None if local else coff, b'm')
    if local:
        ctx.check(and_(len(seen) == 2, seen[0] == asec, seen[1] == csec), 'the zone of the date itself is used')
    ctx.check(blob == canonical(T, P, a, b'%d ' % asec + astr, c, b'%d ' % csec + cstr, b'm'), 'well-formed commit')
    expect(ctx, cm.parse_commit(blob), blob, T, P, a, c, asec, aoff, csec, coff, b'm')
    ctx.reach('done')

def c_msg(ctx, n, parent, lead):
    msg = lead + ctx.bytes('msg', n)
    a, c = (b'A', b'a@b'), (b'C', b'c@d')
    par = P if parent else None
    blob = build(ctx, T, par, a, c, 5, 0, 6, 0, msg)
    ctx.check(blob == canonical(T, par, a, b'5 +0000', c, b'6 +0000', msg), 'well-formed commit')
    expect(ctx, cm.parse_commit(blob), blob, T, par, a, c, 5, 0, 6, 0, msg)
    ctx.reach('done')

def c_parents(ctx, n):
    """Commits written by git: several parents."""
    ps = [ctx.bytes('p%d' % i, 2) + P[2:] for i in range(n)]
    blob = b'tree ' + hexed(T) + b'\n'
    for p in ps: blob += b'parent ' + hexed(p) + b'\n'
    blob += b'author A <a@b> 5 +0000\ncommitter C <c@d> 6 +0000\n\nm\n'
    c = cm.parse_commit(blob)
    ctx.check(len(c.parents) == n, 'every parent is listed')
    for got, p in zip(c.parents, ps): ctx.check(got == hexed(p), 'parents in order')
    ctx.check(c.message == b'm\n', 'message')
    ctx.reach('done')

def c_sig(ctx, l1, l2, n, mergetag):
    """Commits written by git: signature and merge tag headers."""
    s1 = ctx.bytes('s1', l1, exclude=b'\0\n')
    s2 = ctx.bytes('s2', l2, exclude=b'\0\n')
    msg = ctx.bytes('msg', n)
    blob = b'tree ' + hexed(T) + b'\nauthor A <a@b> 5 +0000\ncommitter C <c@d> 6 +0000\n'
    if mergetag:
        blob += b'mergetag object ' + hexed(P) + b'\n ' + ctx.bytes('mt', 2, exclude=b'\0\n') + b'\n \n x\n'
    blob += b'gpgsig ' + s1 + b'\n ' + s2 + b'\n' + b'\n' + msg
    c = cm.parse_commit(blob)
    ctx.check(c.gpgsig == s1 + b'\n' + s2 + b'\n', 'signature decodes')
    ctx.check(c.message == msg, 'message decodes')
    ctx.reach('done')

def c_message(ctx, n, extra):
    """The recorded message keeps the given text and appends trailers git can find."""
    msg = ctx.bytes('msg', n, alphabet=b'a: \t\n\r')
    extra = [b'Bup-X: 1'] if extra else None
    r = cm.commit_message(msg, [b'bup', b'save'], extra)
    text = msg.rstrip()
    ctx.check(r.startswith(text), 'the text is kept')
    tail = b'Bup-Version: ' + cm.version + b'\nBup-Argv: bup save' + (b'\nBup-X: 1' if extra else b'')
    rest = r[len(text):]
    ctx.check(or_(rest == b'\n' + tail, rest == b'\n\n' + tail), 'only the trailers are appended')
    # a last paragraph that isn't trailers must be separated from them
    last = text.split(b'\n')[-1]
    istrailer = and_(last.find(b':') > 0)
    if rest == b'\n' + tail:
        ctx.check(b':' in last, 'trailers only join a last line that is a trailer')
        ctx.reach('joined')
    else: ctx.reach('separate')

def cases(tier):
    q = tier == 'quick'
    out = []
    for parent in (0, 1):
        out.append(Case('ids parent=%d' % parent, c_ids, ('done',), parent=parent, weight=6, bounds='every tree and parent id'))
    for which in ('author', 'committer'):
        for n in (1, 2, 3) if q else (1, 2, 3, 4, 5):
            for m in (0, 1, 2) if q else (0, 1, 2, 3, 4):
                out.append(Case('%s %d %d' % (which, n, m), c_ident, ('done',), which=which, n=n, m=m, parent=n % 2, weight=n + m,
                                bounds='%d byte name, %d byte mail' % (n, m)))
    for local in (0, 1):
        for which in ('author', 'committer'):
            for d in range(1, 13):
                out.append(Case('dates %s local=%d %d' % (which, local, d), c_dates, ('done',), local=local, which=which, digits=d, weight=6,
                                bounds='%s dates of %d digits before and after the epoch, every whole-minute offset' % (which, d)))
    for n in range(0, 5 if q else 8):
        for lead in (b'', b'gpgsig ', b'\ngpgsig ', b'parent ', b' '):
            out.append(Case('msg %d %r' % (n, lead), c_msg, ('done',), n=n, lead=lead, parent=n % 2, weight=n, bounds='%r and any %d bytes' % (lead, n)))
    for n in (0, 1, 2, 3): out.append(Case('parents %d' % n, c_parents, ('done',), n=n, bounds='%d parents' % n))
    for mt in (0, 1):
        for l1, l2, n in ((1, 0, 1), (2, 2, 2), (0, 2, 3)) if q else ((1, 0, 1), (2, 2, 2), (0, 2, 3), (3, 3, 3), (4, 1, 4)):
            out.append(Case('sig %d %d %d %d' % (mt, l1, l2, n), c_sig, ('done',), mergetag=mt, l1=l1, l2=l2, n=n, weight=5,
                            bounds='signature lines of %d and %d bytes, %d byte message' % (l1, l2, n)))
    for n in range(0, 5 if q else 7):
        for e in (0, 1):
            out.append(Case('trailers %d %d' % (n, e), c_message, (), n=n, extra=e, weight=n, bounds='%d byte text' % n))
    return out
