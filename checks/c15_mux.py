META = {
 'level': 'model_checking',
 'assumptions': [
  'the underlying descriptors are blocking: a read returns between one byte and what was asked for (how much is a choice), a write '
  'is complete; select reports readiness truthfully',
  'what precedes the start of the multiplexed stream does not itself contain its start mark',
 ],
}
import struct
from types import SimpleNamespace
from sx.harness import Case, patch
from sx.num import and_, or_, not_, implies
from bup import helpers

class Pipe:
    """The read side: data (of concrete length), then end of file.  At most `cuts` reads come up short, and at most `waits`
    polls find nothing."""
    def __init__(self, ctx, data, cuts, waits=0):
        self.ctx, self.data, self.pos, self.cuts, self.waits, self.n = ctx, data, 0, cuts, waits, 0
    def read(self, n):
        k = min(n, len(self.data) - self.pos)
        if k > 1 and self.cuts:
            self.n += 1
            j = self.ctx.choose('r%d' % self.n, k)      # 0: everything
            if j:
                self.cuts -= 1
                k = j
        r = self.data[self.pos:self.pos + k]
        self.pos += k
        return r
    def ready(self, timeout):
        if timeout is None or not self.waits: return True
        self.n += 1
        if self.ctx.flag('w%d' % self.n): return True
        self.waits -= 1
        return False

class Sink:
    def __init__(self): self.b = b''
    def write(self, d): self.b = self.b + d
    def flush(self): pass

def world(ctx, pipe):
    err = Sink()
    err.buffer = err
    patch(helpers, 'os', SimpleNamespace(read=lambda fd, n: pipe.read(n), getpid=lambda: 1))
    patch(helpers, 'select', SimpleNamespace(select=lambda r, w, x, timeout=None: (list(r) if pipe.ready(timeout) else [], [], [])))
    patch(helpers, 'byte_stream', lambda f: err)
    patch(helpers, 'sys', SimpleNamespace(stderr=err))
    return err

def packets(ctx, layout, alphabet):
    """layout: (channel, length): wire bytes, data, errors"""
    wire, data, errs = b'BUPMUX', b'', b''
    for i, (ch, n) in enumerate(layout):
        p = ctx.bytes('p%d' % i, n, alphabet=alphabet) if n else b''
        wire = wire + struct.pack('!IB', n, ch) + p
        if ch == 1: data = data + p
        if ch == 2: errs = errs + p
    return wire, data, errs

def requests(ctx, conn, data, ops, polls=False):
    """perform the reads, comparing with the stream"""
    pos = 0
    for i, op in enumerate(ops):
        rest = data[pos:]
        if op == 'line':
            got = conn.readline()
            j = rest.find(b'\n')
            want = rest if j == -1 else rest[:j + 1]
            ctx.check(len(got) == len(want), 'a line read returns one line')
        elif op == 'poll':
            r = bool(conn.has_input())
            if r: ctx.check(len(rest) > 0, 'input is only promised when there is some')
            continue
        elif op == 'write':
            conn.write(b'x%d' % i)
            continue
        else:
            got = conn.read(op)
            want = rest[:op]
            ctx.check(len(got) == len(want), 'a sized read returns that much')
        ctx.check(got == want, 'the bytes come in order')
        pos += len(got)
        if 'line' in ops and isinstance(pos, int) is False: pos = int(pos)
    return pos

def run_demux(ctx, layout, ops, cuts, pre, tail, alphabet, waits=0):
    head = ctx.bytes('pre', pre, alphabet=b'BUx') if pre else b''
    wire, data, errs = packets(ctx, layout, alphabet)
    wire = wire + struct.pack('!IB', 0, 3)
    after = ctx.bytes('tail', tail) if tail else b''
    pipe = Pipe(ctx, head + wire + after, cuts, waits)
    err = world(ctx, pipe)
    out = Sink()
    conn = helpers.DemuxConn(3, out)
    with conn:
        ctx.check(err.b == head, 'what precedes the stream goes to standard error')
        requests(ctx, conn, data, ops)
        while True:
            b = conn.read(7)
            if not len(b): break
        ctx.check(len(conn.readline()) == 0 and len(conn.read(3)) == 0, 'the end of the stream is final')
        ctx.check(not conn.has_input(), 'no more input after the end')
    ctx.check(err.b == head + errs + after, 'the error channel is passed on in order')
    ctx.check(out.b == b''.join(b'x%d' % i for i, o in enumerate(ops) if o == 'write'), 'what is written is sent')
    ctx.check(pipe.pos == len(pipe.data), 'everything is consumed')
    ctx.reach('done')

def run_all(ctx, layout, size, cuts, alphabet):
    """a reader that takes everything"""
    wire, data, errs = packets(ctx, layout, alphabet)
    pipe = Pipe(ctx, wire + struct.pack('!IB', 0, 3), cuts)
    err = world(ctx, pipe)
    got = []
    with helpers.DemuxConn(3, Sink()) as conn:
        if size == 'demux':
            from bup.cmd import demux
            out = Sink()
            patch(demux, 'byte_stream', lambda f: out)
            class O:
                def __init__(self, spec): pass
                def parse_bytes(self, a): return None, None, []
            patch(demux, 'options', SimpleNamespace(Options=O))
            patch(demux, 'DemuxConn', lambda fd, o: conn)
            patch(demux, 'sys', SimpleNamespace(stdout=Sink(), stderr=err, stdin=SimpleNamespace(fileno=lambda: 3)))
            demux.main([b'demux'])
            got.append(out.b)
        else:
            while True:
                b = conn.read(size) if size else conn.readline()
                if not len(b): break
                got.append(b)
    ctx.check(b''.join(got) == data, 'all the data arrives')
    ctx.check(err.b == errs, 'errors arrive separately')
    ctx.reach('done')

def run_cut(ctx, layout, keep, alphabet):
    """the connection breaks"""
    wire, data, errs = packets(ctx, layout, alphabet)
    wire = wire + struct.pack('!IB', 0, 3)
    wire = wire[:keep]
    pipe = Pipe(ctx, wire, 1)
    world(ctx, pipe)
    got = b''
    try:
        with helpers.DemuxConn(3, Sink()) as conn:
            while True:
                b = conn.read(2)
                if not len(b): break
                got = got + b
    except Exception as e:
        if type(e).__name__ in ('Abort', 'Violation', 'Unsupported', 'Inconclusive'): raise
        ctx.reach('reported')
        return
    ctx.fail('a broken connection is not taken for the end')

def run_huge(ctx):
    n = ctx.int('n', 0, (1 << 32) - 1)
    ch = ctx.int('ch', 1, 1)
    pipe = Pipe(ctx, b'BUPMUX' + struct.pack('!IB', n, ch) + b'junk', 0)
    err = world(ctx, pipe)
    with helpers.DemuxConn(3, Sink()) as conn:
        try: conn.has_input()
        except Exception as e:
            ctx.check(str(e) == 'Connection broken' and n > helpers.MAX_PACKET or 'EOF' in str(e), 'only impossible packets are refused')
            ctx.reach('refused')
            return
        ctx.check(n <= helpers.MAX_PACKET, 'an impossible packet is refused')
        ctx.reach('accepted')

def run_mux(ctx, outs, errs, cuts):
    """the sending side: whatever arrives on the two channels, in any order"""
    d = {1: [ctx.bytes('o%d' % i, n) for i, n in enumerate(outs)], 2: [ctx.bytes('e%d' % i, n) for i, n in enumerate(errs)]}
    want = {k: b''.join(v) for k, v in d.items()}
    sent, order, count = [], [], [0]
    OUT, ERR = 11, 12
    ended = {OUT: False, ERR: False}
    def read(fd, n):
        q = d[1 if fd == OUT else 2]
        assert not ended[fd]
        if not q:
            ended[fd] = True
            return b''
        ctx.check(n > 0, 'something is asked for')
        return q.pop(0)
    def sel(r, w, x, timeout=None):
        count[0] += 1
        r = list(r)
        assert r and all(fd in (OUT, ERR) and not ended[fd] for fd in r)
        if len(r) == 1: return r, [], []
        k = ctx.choose('s%d' % count[0], 4)
        return [r, r[:1], r[1:], r[::-1]][k], [], []
    def write(fd, b):
        assert fd == 9
        sent.append(b); return len(b)
    def writev(fd, bs):
        for b in bs: write(fd, b)
        return sum(len(b) for b in bs)
    patch(helpers, 'os', SimpleNamespace(read=read, write=write, writev=writev))
    patch(helpers, 'select', SimpleNamespace(select=sel))
    helpers.mux(9, OUT, ERR)
    ctx.check(all(ended.values()), 'both channels are read to their end')
    pipe = Pipe(ctx, b''.join(sent), cuts)
    err = world(ctx, pipe)
    got = b''
    with helpers.DemuxConn(3, Sink()) as conn:
        while True:
            b = conn.read(4)
            if not len(b): break
            got = got + b
    ctx.check(got == want[1], 'the data arrives unchanged')
    ctx.check(err.b == want[2], 'the errors arrive unchanged')
    ctx.reach('done')

def run_conn(ctx, n, ops):
    """a plain connection"""
    import io
    data = ctx.bytes('d', n, alphabet=b'a\nk')
    class Out(Sink):
        flushed = False
        def write(self, b): self.b = self.b + b; self.flushed = False
        def flush(self): self.flushed = True
    out = Out()
    f = io.BytesIO(data)
    class In:
        def read(self, k):
            ctx.check(out.flushed or not len(out.b), 'what was written is sent before waiting')
            return f.read(k)
        def readline(self):
            ctx.check(out.flushed or not len(out.b), 'what was written is sent before waiting')
            return f.readline()
    with helpers.Conn(In(), out) as conn:
        requests(ctx, conn, data, ops)
    ctx.check(out.b == b''.join(b'x%d' % i for i, o in enumerate(ops) if o == 'write'), 'what is written is sent')
    ctx.reach('done')

def run_status(ctx, lines, end, drain):
    """the end of a command's output"""
    import io
    text = b''
    ls = []
    for i, n in enumerate(lines):
        l = ctx.bytes('l%d' % i, n, alphabet=b'ok e') if n else b''
        ls.append(l)
        ctx.assume(l != b'ok')
        text = text + l + b'\n'
    msg = ctx.bytes('m', 2, alphabet=b'a: ')
    text = text + {'ok': b'\nok\n', 'error': b'\nerror ' + msg + b'\n', 'none': b''}[end] + b'left'
    f = io.BytesIO(text)
    conn = helpers.Conn(f, Sink())
    extra = or_(*[len(l) > 0 for l in ls]) if ls else False
    with conn:
        try: r = conn.drain_and_check_ok() if drain else conn.check_ok()
        except Exception as e:
            if type(e).__name__ in ('Abort', 'Violation', 'Unsupported', 'Inconclusive'): raise
            ctx.check(end == 'none' or (extra and not drain), 'only an unexpected answer is refused')
            ctx.reach('refused')
            return
        ctx.check(end != 'none' and (drain or not extra), 'an unexpected answer is refused')
        if end == 'ok': ctx.check(r is None, 'success')
        else: ctx.check(isinstance(r, helpers.NotOk) and r.args[0] == msg.decode('ascii'), 'the error message')
        ctx.check(f.read() == b'left', 'nothing beyond the answer is consumed')
        ctx.reach(end)

def run_error(ctx, n):
    """an error sent by one side arrives at the other"""
    import io
    text = ctx.bytes('t', n, alphabet=b'ab \n\t').decode('ascii')
    out = Sink()
    with helpers.Conn(None, out) as conn: conn.error(text)
    with helpers.Conn(io.BytesIO(out.b + b'rest'), Sink()) as conn:
        r = conn.check_ok()
        ctx.check(isinstance(r, helpers.NotOk), 'an error arrives as an error')
        got = r.args[0]
        ctx.check(got.split() == text.split(), 'the message arrives (white space apart)')
        ctx.check(got.find('\n') == -1, 'on one line')
        ctx.check(conn.read(9) == b'rest', 'exactly the error is consumed')
    with helpers.Conn(None, out) as conn: conn.ok()
    with helpers.Conn(io.BytesIO(out.b[-4:]), Sink()) as conn: ctx.check(conn.check_ok() is None, 'success arrives as success')
    ctx.reach('done')

def run_lines(ctx, n):
    import io
    data = ctx.bytes('d', n, alphabet=b'a\nb')
    got = list(helpers.linereader(io.BytesIO(data)))
    want = data.split(b'\n')
    if len(want[-1]) == 0: want = want[:-1]
    ctx.check(len(got) == len(want), 'the number of lines')
    for g, w in zip(got, want): ctx.check(g == w, 'each line without its newline')
    ctx.reach('done')

def cases(tier):
    big = tier == 'thorough'
    cs = []
    NL = b'a\nb'
    def demux(name, layout, ops, cuts=1, pre=0, tail=0, alphabet=None, waits=0):
        cs.append(Case('demux ' + name, run_demux, ('done',), layout=layout, ops=ops, cuts=cuts, pre=pre, tail=tail, alphabet=alphabet, waits=waits,
                       bounds='packets %s, requests %s, up to %d short reads' % (layout, ops, cuts)))
    demux('sized', ((1, 3), (2, 1), (1, 2)), (1, 3, 4), 2)
    demux('sizes 2', ((1, 2), (1, 2), (1, 1)), (2, 1, 2, 1))
    demux('zero', ((1, 2), (2, 1)), (0, 1, 0, 1))
    demux('empty packets', ((1, 0), (2, 0), (1, 2), (1, 0)), (1, 2))
    demux('errors only', ((2, 2), (2, 1)), (1, 'line'), 2)
    demux('lines', ((1, 2), (2, 1), (1, 2)), ('line', 'line', 'line'), 1, alphabet=NL)
    demux('line then sized', ((1, 3), (1, 2)), ('line', 2, 'line'), 1, alphabet=NL)
    demux('sized then line', ((1, 2), (1, 3)), (1, 'line', 1, 'line'), 1, alphabet=NL)
    demux('polls', ((1, 1), (2, 1), (1, 2)), ('poll', 1, 'poll', 'poll', 2), 1, waits=2)
    demux('writes', ((1, 1), (1, 2)), ('write', 2, 'write', 'poll', 1), 1, waits=1)
    demux('before', ((1, 2),), (2,), 1, pre=3)
    demux('before 6', ((1, 1),), (2,), 0, pre=5 if not big else 7)
    demux('after', ((1, 2), (2, 1)), (1,), 1, tail=2)
    if big:
        demux('three cuts', ((1, 3), (2, 2), (1, 3)), (2, 'line', 3), 3, alphabet=NL)
        demux('more packets', ((1, 2), (2, 1), (1, 1), (2, 2), (1, 2)), (1, 'poll', 2, 'line'), 2, alphabet=NL, waits=1, tail=1, pre=2)
        demux('long lines', ((1, 3), (1, 3), (1, 3)), ('line', 'line', 'line', 'line'), 2, alphabet=NL)
    for size in (1, 2, 0, 'demux') + ((3,) if big else ()):
        cs.append(Case('everything %s' % size, run_all, ('done',), layout=((1, 2), (2, 2), (1, 3)), size=size, cuts=2 if big else 1, alphabet=NL,
                       bounds='three packets, reads of %s' % size))
    n = 6 + 5 + 2 + 5 + 1 + 5
    for keep in range(n):
        cs.append(Case('broken after %d' % keep, run_cut, ('reported',), layout=((1, 2), (2, 1)), keep=keep, alphabet=None,
                       bounds='two packets, cut after %d bytes' % keep))
    cs.append(Case('impossible packet', run_huge, ('refused', 'accepted'), bounds='every packet length'))
    for outs, errs in (((2, 1), (1,)), ((3,), (1, 2)), ((), (2,)), ((1,), ())) + ((((2, 2, 1), (1, 2)),) if big else ()):
        cs.append(Case('mux %s %s' % (outs, errs), run_mux, ('done',), outs=outs, errs=errs, cuts=1, bounds='reads of %s and %s bytes, in any order' % (outs, errs)))
    for n, ops in ((4, (2, 'line', 'write', 3)), (5, ('write', 'line', 'line', 1)), (3, (5, 'line'))):
        cs.append(Case('plain %d %s' % (n, ops), run_conn, ('done',), n=n, ops=ops, bounds='%d bytes, requests %s' % (n, ops)))
    for lines in ((), (1,), (0, 2), (3, 1)):
        for end in ('ok', 'error', 'none'):
            for drain in (True, False):
                labels = ('refused',) if end == 'none' or not drain and lines else (end,)
                cs.append(Case('answer %s %s %s' % (lines, end, 'drain' if drain else 'check'), run_status, labels, lines=lines, end=end, drain=drain,
                               bounds='lines of %s bytes, then %s' % (lines, end)))
    for n in (1, 3) + ((5,) if big else ()):
        cs.append(Case('error %d' % n, run_error, ('done',), n=n, bounds='message of %d characters' % n))
    for n in (0, 2, 4) + ((7,) if big else ()):
        cs.append(Case('lines %d' % n, run_lines, ('done',), n=n, bounds='%d bytes' % n))
    return cs
