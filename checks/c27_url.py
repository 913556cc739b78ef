META = {
 'level': 'model_checking',
 'assumptions': [
  'ip_address() is the standard library function (called on concrete text: a symbolic host that could be an address is '
  'enumerated by the solver); IPv4 and IPv6 hosts are taken from a list of representative addresses',
  "a location's path is not a dot-encoded one (does not start with /./) - that form only exists in rendered URLs - and "
  'a relative path that is to be dot-encoded does not start with a slash',
  'a host that is bytes is not the text of an IPv4 address (that is an IPv4Address)',
 ],
}
import ipaddress
from sx.harness import Case, patch
from sx.num import and_, or_, not_, implies
from bup import url as U
from bup import config, ssh, client
from bup.url import URL

def conc(s):
    """Concrete text for a symbolic one (every value is explored)."""
    return s._native() if hasattr(s, '_native') else s

def digdot(s):
    return and_(True, *[or_(and_(ord(c) >= 48, ord(c) <= 57), c == '.') for c in s])

def ip(ctx):
    real = ipaddress.ip_address
    def ip_address(s):
        if not hasattr(s, '_native'): return real(s)
        v6 = ':' in s
        if not v6 and (len(s) < 7 or not digdot(s)): raise ValueError('not an address')
        return real(conc(s))
    if ctx.symbolic: patch(U, 'ip_address', ip_address)

HOSTS = [b'', b'h', ipaddress.ip_address('1.2.3.4'), ipaddress.ip_address('::'), ipaddress.ip_address('fe80::1:2'), b'[', b'a.b']

def same(ctx, got, want, what):
    ctx.check(isinstance(got, URL), what + ': is a URL')
    ctx.check(and_(got.scheme == want.scheme), what + ': scheme')
    ctx.check(type(got.host) is type(want.host) or isinstance(got.host, bytes) == isinstance(want.host, bytes), what + ': kind of host')
    ctx.check(got.host == want.host, what + ': host')
    ctx.check(got.port == want.port if want.port is not None else got.port is None, what + ': port')
    ctx.check(got.user == want.user, what + ': user')
    ctx.check(got.path == want.path, what + ': path')

def roundtrip(ctx, url, dot):
    text = None
    try: text = U.render_url(url, dot_encode=dot)
    except ValueError:
        ctx.check(not dot, 'every location can be rendered with dot encoding')
        ctx.check(and_(not_(url.path.startswith(b'/')), url._has_auth()), 'only a relative path with an authority needs dot encoding')
        ctx.reach('refused')
        return
    got = U.parse_path_oriented_url(text)
    same(ctx, got, url, 'round trip')
    # what follows the authority starts with a slash or nothing
    ctx.reach('rendered')

def getport(ctx, kind):
    return {'none': None, 'some': ctx.int('port', 0, 65535, math=True) if kind == 'some' else 0}[kind]

def c_round(ctx, nu, nh, np, port, dot):
    ip(ctx)
    user = ctx.bytes('user', nu)
    host = ctx.bytes('host', nh)
    path = ctx.bytes('path', np)
    ctx.assume(not_(path.startswith(b'/./')))
    scheme = [b'ssh', b'x', b'bup-rev', b'a+b.c'][ctx.choose('scheme', 4)] if nu + nh + np < 3 else b'ssh'
    roundtrip(ctx, URL(scheme=scheme, host=host, user=user, path=path, port=getport(ctx, port)), dot)

def c_round_ip(ctx, h, nu, np, port, dot):
    ip(ctx)
    user = ctx.bytes('user', nu)
    path = ctx.bytes('path', np)
    ctx.assume(not_(path.startswith(b'/./')))
    roundtrip(ctx, URL(scheme=b'ssh', host=HOSTS[h], user=user, path=path, port=getport(ctx, port)), dot)

# An independent reading of RFC 3986 section 3, with the documented exceptions
UNRES = b"-._~0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ!$&'()*+,;="
def regname(s): return and_(True, *[or_(c == 37, c == 39, inset(c)) for c in s])
def inset(c):
    return or_(and_(c >= 97, c <= 122), and_(c >= 65, c <= 90), and_(c >= 48, c <= 57), *[c == x for x in b"-._~!$&'()*+,;="])

def pct(s):
    """percent-decode"""
    r, i = b'', 0
    while i < len(s):
        if s[i] == 37 and i + 2 < len(s) and ishex(s[i+1]) and ishex(s[i+2]):
            r += bytes([hexv(s[i+1]) * 16 + hexv(s[i+2])])
            i += 3
        else:
            r += s[i:i+1]
            i += 1
    return r
def ishex(c): return or_(and_(c >= 48, c <= 57), and_(c >= 65, c <= 70), and_(c >= 97, c <= 102))
def hexv(c):
    if c <= 57: return c - 48
    if c <= 70: return c - 55
    return c - 87

def depath(p):
    if p.startswith(b'/./'):
        p = p[3:]
        while p.startswith(b'/'): p = p[1:]
    return p

def ref_authority(a):
    """-> (user, host, port) or None when invalid"""
    user = b''
    i = a.rfind(b'@')
    if i >= 0:
        ui, a = a[:i], a[i+1:]
        if not and_(True, *[or_(c == 58, c == 37, inset(c)) for c in ui]): return None
        j = ui.find(b':')
        user = pct(ui if j < 0 else ui[:j])
    port = None
    j = a.rfind(b':')
    if j >= 0 and and_(True, *[and_(c >= 48, c <= 57) for c in a[j+1:]]):
        port, a = a[j+1:], a[:j]
        port = int(port) if len(port) else None
    if len(a) and a[0] == 91 and a[len(a)-1] == 93:
        try: host = ipaddress.ip_address(conc(a[1:-1]).decode('ascii'))
        except ValueError: return None
        return (user, host, port) if host.version == 6 else None
    if not regname(a): return None
    if len(a) >= 7 and and_(True, *[or_(and_(c >= 48, c <= 57), c == 46) for c in a]):
        try: return user, ipaddress.ip_address(conc(a).decode('ascii')), port
        except ValueError: pass
    return user, pct(a), port

def c_parse(ctx, pre, n, alphabet, post=b''):
    ip(ctx)
    rest = ctx.bytes('rest', n, alphabet=alphabet) + post
    text = pre + rest
    got = U.parse_path_oriented_url(text)
    need = U.parse_path_oriented_url(text, require_auth=True)
    if not rest.startswith(b'//'):
        ctx.check(need is None, 'without an authority')
        same(ctx, got, URL(scheme=pre[:-1], path=depath(rest)), 'no authority')
        ctx.reach('plain')
        return
    body = rest[2:]
    k = body.find(b'/')
    auth, path = (body, b'') if k < 0 else (body[:k], depath(body[k:]))
    ref = ref_authority(auth)
    if ref is None:
        ctx.check(isinstance(got, str), 'an invalid authority is reported')
        ctx.reach('invalid')
        return
    user, host, port = ref
    same(ctx, got, URL(scheme=pre[:-1], user=user, host=host, port=port, path=path), 'parse')
    same(ctx, need, URL(scheme=pre[:-1], user=user, host=host, port=port, path=path), 'parse with authority')
    ctx.reach('url')

def c_scheme(ctx, n):
    ip(ctx)
    s = ctx.bytes('s', n)
    got = U.parse_path_oriented_url(s + b':x')
    ok = and_(or_(and_(s[0] >= 97, s[0] <= 122), and_(s[0] >= 65, s[0] <= 90)),
              *[or_(and_(c >= 97, c <= 122), and_(c >= 65, c <= 90), and_(c >= 48, c <= 57), c == 43, c == 45, c == 46) for c in s])
    if got is None:
        # the scheme ends at the first colon
        i = s.find(b':')
        ctx.check(not_(ok), 'a valid scheme is recognised')
        ctx.reach('none')
    else:
        i = s.find(b':')
        if i < 0: same(ctx, got, URL(scheme=s, path=b'x'), 'scheme')
        else: ctx.check(and_(i > 0, got.scheme == s[:i]), 'the scheme ends at the first colon')
        if i < 0: ctx.check(ok, 'only a valid scheme is recognised')
        ctx.reach('url')

def c_remote(ctx, n, alphabet):
    """The traditional [USER@]HOST:PATH form of --remote."""
    ip(ctx)
    t = ctx.bytes('t', n, alphabet=alphabet)
    got = config.url_for_remote_opt(t)
    at = t.rfind(b'@')
    user, hp = (b'', t) if at < 0 else (t[:at], t[at+1:])
    c = hp.find(b':')
    if c < 0:
        ctx.check(isinstance(got, str), 'a remote without a colon is refused')
        ctx.reach('refused')
        return
    host, path = hp[:c], hp[c+1:]
    if len(host) == 0:
        ctx.check(isinstance(got, str), 'a remote without a host is refused')
        ctx.reach('refused')
        return
    if host == b'-':
        same(ctx, got, URL(scheme=b'ssh', path=path), 'subprocess remote')
        return
    same(ctx, got, URL(scheme=b'ssh', host=host, user=user, path=path), 'remote')
    ctx.reach('url')

class Proc:
    stdout = stdin = None
    def __init__(self, argv, **kw): Proc.argv = argv

def c_ssh(ctx, h, nu, port):
    """Connecting to an ssh URL names exactly that user, host and port."""
    user = ctx.bytes('user', nu, exclude=b'\0')
    patch(ssh, 'Popen', Proc)
    patch(client, 'Conn', lambda a, b: None)
    patch(ssh, 'environ', {})
    p = getport(ctx, port)
    u = URL(scheme=b'ssh', host=HOSTS[h], user=user, port=p, path=b'/x')
    via = client.Client.ViaSsh(u)
    via._closed = True
    host = HOSTS[h] if isinstance(HOSTS[h], bytes) else HOSTS[h].compressed.encode('ascii')
    argv = list(Proc.argv)
    want = [b'ssh']
    if p is not None:
        if p != 0: want += [b'-p', b'%d' % p]
    want.append(user + b'@' + host if nu else host)
    ctx.check(len(argv) == len(want) + 2 and argv[len(want)] == b'--', 'ssh is given the destination and one command')
    for a, b in zip(argv, want):
        ctx.check(a == b, 'ssh is given exactly the user, host and port of the URL')
    ctx.reach('done')

def cases(tier):
    q = tier == 'quick'
    out = []
    sizes = [(u, h, p) for u in range(3) for h in range(3) for p in range(4) if u + h + p <= (3 if q else 5)]
    sizes += [(0, 0, 5), (0, 1, 5), (3, 0, 0), (0, 4, 0)] if q else [(0, 0, 8), (0, 1, 7), (5, 0, 0), (0, 6, 0), (3, 1, 0)]
    for u, h, p in sizes:
        for port in ('none', 'some'):
            for dot in (False, True):
                if not q or dot or u + h + p <= 2:
                    out.append(Case('round %d %d %d %s %s' % (u, h, p, port, dot), c_round, (), nu=u, nh=h, np=p, port=port, dot=dot,
                                    weight=u * 3 + h * 3 + p, bounds='every %d byte user, %d byte host, %d byte path, port %s' % (u, h, p, port)))
    for h in (2, 3, 4):
        for nu, np in ((0, 0), (1, 2)) if q else ((0, 0), (1, 2), (2, 3)):
            for port in ('none', 'some'):
                out.append(Case('round ip %d %d %d %s' % (h, nu, np, port), c_round_ip, ('rendered',), h=h, nu=nu, np=np, port=port, dot=True,
                                weight=5, bounds='address %s, %d byte user, %d byte path' % (HOSTS[h], nu, np)))
    A = b'/.:@[]a1%\n'
    for n in range(0, 5 if q else 6):
        out.append(Case('parse %d' % n, c_parse, (), pre=b'x:', n=n, alphabet=A, weight=3 ** n, bounds='x: and %d characters of %r' % (n, A)))
    for n in range(0, 5 if q else 6):
        out.append(Case('parse auth %d' % n, c_auth, (), n=n, alphabet=A, weight=4 ** n, bounds='x:// and %d characters of %r' % (n, A)))
    out.append(Case('parse auth full', c_auth, (), n=2 if q else 3, alphabet=None, weight=40, bounds='x:// and any %d bytes' % (2 if q else 3)))
    for n in (1, 2, 3) if q else (1, 2, 3, 4): out.append(Case('scheme %d' % n, c_scheme, ('none', 'url'), n=n, weight=n, bounds='any %d byte scheme' % n))
    for n in range(1, 6 if q else 8):
        out.append(Case('remote %d' % n, c_remote, ('refused',), n=n, alphabet=b':@a-', weight=2 ** n, bounds='%d characters of : @ a -' % n))
    for n in (2, 3): out.append(Case('remote any %d' % n, c_remote, ('refused',), n=n, alphabet=None, weight=2 ** n, bounds='any %d bytes' % n))
    for h in (1, 2, 3, 4):
        for nu in (0, 1, 2):
            for port in ('none', 'some'):
                out.append(Case('ssh %d %d %s' % (h, nu, port), c_ssh, ('done',), h=h, nu=nu, port=port, bounds='host %s, %d byte user, port %s' % (HOSTS[h], nu, port)))
    return out

def c_auth(ctx, n, alphabet):
    ip(ctx)
    body = ctx.bytes('body', n, alphabet=alphabet) if alphabet else ctx.bytes('body', n)
    text = b'x://' + body
    got = U.parse_path_oriented_url(text)
    k = body.find(b'/')
    auth, path = (body, b'') if k < 0 else (body[:k], depath(body[k:]))
    ref = ref_authority(auth)
    if ref is None:
        ctx.check(isinstance(got, str), 'an invalid authority is reported')
        ctx.reach('invalid')
        return
    user, host, port = ref
    same(ctx, got, URL(scheme=b'x', user=user, host=host, port=port, path=path), 'parse')
    ctx.reach('url')
